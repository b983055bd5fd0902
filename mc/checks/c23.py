"""C23: contact laws respond as parameterised; each made law keeps its own parameters."""
import itertools

import numpy as np

from mc import laws, meshref, problems as pb, refdyn, timespace as ts

MODES = ["py", "jit"]
CHUNK = 1
GRID = [-2.0, -0.5, -1e-9, 0.0, 1e-9, 0.01, 0.3, 1.0, 7.0]
DTS = [0.0, 0.01, 0.5, 2.0]
SLOPES = [0.0, 1.0, 2.71, 1e3]
DAMPED = [(0.0, 1.0, 0.5), (0.01, 10.0, 0.5), (1.0, 10.0, 0.1), (-0.2, 3.0, 0.0), (0.05, 0.0, 2.0)]


def bounds(tier):
    return {
        "laws": {"relu slopes": SLOPES, "constant resistances": SLOPES, "damped (level, kappa, beta)": DAMPED, "base": "defaults"},
        "arguments": f"all of {GRID} x {GRID} x {DTS}",
        "making": "every ordered pair of parameters, evaluated before, between and after",
        "forms": "called on the class and on an instance, interpreted and compiled by numba",
        "membranes": "damped law under a membrane that stays in contact / stays away, boundary and interior, every mesh x "
        "parameters x time step",
    }


def jobs(tier, mode):
    for fam in ("relu", "const", "damped", "damped interior"):
        yield {"what": "grid", "family": fam}
    yield {"what": "base"}
    if mode == "jit":
        return
    for fam in ("relu", "const", "damped", "damped interior"):
        yield {"what": "pairs", "family": fam}
    meshes = ["square2", "square4", "dart"] + (["lshape", "strip3", "grid22"] if tier == "thorough" else [])
    for mesh, interior, k in itertools.product(meshes, (False, True), range(len(DAMPED))):
        if k in (1, 2, 3, 4):
            yield {"what": "membrane", "mesh": mesh, "interior": interior, "k": k, "steps": 3 if tier == "thorough" else 2}


def make(fam, p):
    if fam == "relu":
        from conmech.dynamics.contact.relu_slope_contact_law import make_slope_contact_law

        return make_slope_contact_law(slope=p)
    if fam == "const":
        from conmech.dynamics.contact.constant_constact_law import make_const_contact_law

        return make_const_contact_law(resistance=p)
    from conmech.dynamics.contact.damped_normal_compliance import make_damped_norm_compl

    level, kappa, beta = p
    return make_damped_norm_compl(obstacle_level=level, kappa=kappa, beta=beta, interior=fam.endswith("interior"))


def params(fam):
    return DAMPED if fam.startswith("damped") else SLOPES


def want(fam, p, v, u, dt):
    """(normal bound, potential, response)."""
    if fam == "relu":
        return 1.0, 0.5 * p * max(v, 0.0) ** 2, p * max(v, 0.0)
    if fam == "const":
        return 1.0, p * max(v, 0.0) * u, p if v > 0 else 0.0
    level, kappa, beta = p
    d = u + v * dt
    if d < level:
        return 0.5 * v, 0.0, 0.0
    return 0.5 * v, kappa * (d - level) + beta * v, kappa * dt + beta


def compare(ctx, law, fam, p, njit=None, what=""):
    f = njit or (lambda x: x)
    nb, tb = f(law.normal_bound), f(law.tangential_bound)
    pot, sub = f(law.potential_normal_direction), f(law.subderivative_normal_direction)
    pt = f(law.potential_tangential_direction)
    got, exp = [], []
    for v, u, dt in itertools.product(GRID, GRID, DTS):
        got.append([nb(v, u, dt), pot(v, u, dt), sub(v, u, dt)])
        exp.append(want(fam, p, v, u, dt))
    ctx.close(got, exp, f"bound, potential, response ({fam})", 1e-12, p=p, when=what)
    z = np.array([0.3, -0.2])
    ctx.check(pt(z, z, 0.5) == 0, "no tangential potential", family=fam)
    ctx.check(tb(0.3, 0.1, 0.5) == 1.0, "tangential bound", family=fam)
    return np.array(got)


def run(job, ctx):
    ctx.sample(job)
    globals()[job["what"]](job, ctx)


def grid(job, ctx):
    import numba
    from conmech.dynamics.contact.contact_law import DirectContactLaw, PotentialOfContactLaw
    from conmech.dynamics.contact.interior_contact_law import InteriorContactLaw

    fam = job["family"]
    for p in params(fam):
        cls = make(fam, p)
        ctx.check(issubclass(cls, PotentialOfContactLaw), "kind of law", family=fam)
        ctx.check(issubclass(cls, DirectContactLaw) == (fam in ("relu", "const")), "kind of law (direct)", family=fam)
        ctx.check(issubclass(cls, InteriorContactLaw) == fam.endswith("interior"), "kind of law (interior)", family=fam)
        for law in (cls, cls()):
            g = compare(ctx, law, fam, p)
            ctx.trace()
            ctx.step(len(g))
        g = compare(ctx, cls(), fam, p, numba.njit, "compiled")
        if fam.startswith("damped"):
            o = cls()
            ctx.close([o.obstacle_level, o.kappa, o.beta], p, "reported parameters", 0.0)
        ctx.observe(g)
        ctx.step(len(g))
        ctx.trace()
        ctx.state((fam, p))
        ctx.outcome((fam, g))


def base(job, ctx):
    """A law that defines only what it must gets unit bounds and no friction."""
    from conmech.dynamics.contact.contact_law import DirectContactLaw, PotentialOfContactLaw

    class OnlyPotential(PotentialOfContactLaw):
        @staticmethod
        def potential_normal_direction(var_nu, static_displacement_nu, dt):
            return var_nu

    class OnlyDirect(DirectContactLaw):
        @staticmethod
        def subderivative_normal_direction(var_nu, static_displacement_nu, dt):
            return var_nu

    z = np.array([0.5, 0.2])
    for law in (OnlyPotential, OnlyPotential(), OnlyDirect, OnlyDirect()):
        for v, u, dt in itertools.product(GRID, GRID, DTS):
            ctx.check(law.normal_bound(v, u, dt) == 1 and law.tangential_bound(v, u, dt) == 1, "default bounds")
            ctx.step()
            if isinstance(law, PotentialOfContactLaw):
                ctx.check(law.potential_tangential_direction(v * z, u * z, dt) == 0, "default friction")
            elif isinstance(law, DirectContactLaw):
                ctx.check(law.subderivative_tangential_direction(v * z, u * z, dt) == 0, "default friction")
        ctx.trace()
        ctx.state(str(law)[:40])
    for cls in (PotentialOfContactLaw, DirectContactLaw):
        try:
            cls()
            ctx.fail("a law without response was created")
        except TypeError:
            pass
    ctx.outcome("defaults")


def pairs(job, ctx):
    fam = job["family"]
    for p, q in itertools.product(params(fam), repeat=2):
        a = make(fam, p)
        compare(ctx, a, fam, p)
        b = make(fam, q)
        compare(ctx, a, fam, p, what="after another law was made")
        compare(ctx, b, fam, q)
        ia, ib = a(), b()
        compare(ctx, ib, fam, q)
        compare(ctx, ia, fam, p, what="after another law was used")
        ctx.step(5)
        ctx.trace()
        ctx.state((fam, p, q))
        ctx.outcome((fam, p == q))


class Active:
    """Damped law above (active) or below its obstacle, where its functional is quadratic."""

    tangential = None

    def __init__(self, p, active, interior):
        self.p, self.active = p, active
        if interior:
            self.interior = True

    def normal(self, v, u, dt):
        if not self.active:
            return 0.0, 0.0
        level, kappa, beta = self.p
        if getattr(self, "interior", False):
            return kappa * dt + beta, 0.0  # the interior functional sums the law itself, not the law times v
        return 0.5 * (kappa * (u - level)) + (kappa * dt + beta) * v, kappa * dt + beta


def membrane(job, ctx):
    p = DAMPED[job["k"]]
    interior = job["interior"]
    fam = "damped interior" if interior else "damped"
    arrays = meshref.get_mesh(job["mesh"])
    ref = meshref.MeshRef(*arrays)
    contact, dirichlet = (lambda x: x[1] == 0), (lambda x: x[1] >= 1.0)
    for active, dt, method in itertools.product((True, False), (0.01, 0.05), ("schur", "global")):
        if interior and method == "schur":
            continue
        level = p[0]
        h = level + (5.0 if active else -5.0)
        u0 = lambda x: np.column_stack((np.full(len(x), h), np.zeros(len(x))))
        v0 = lambda x: np.column_stack((0.2 * x[:, 0] - 0.1, np.zeros(len(x))))
        fi, fo = (lambda x, t: np.array([0.3 - x[1]])), (lambda x, t: np.array([0.2]))
        solver = pb.make_solver(
            "wave", arrays, {"contact": contact, "dirichlet": dirichlet}, method, inner=fi, outer=fo, law=make(fam, p)(), dt=dt, c=1.5
        )
        n = job["steps"]
        states = pb.solve("wave", solver, n_steps=n, output_step=list(range(1, n + 1)), u0=u0, v0=v0)
        nodes = np.asarray(solver.body.mesh.nodes, dtype=float)
        model = refdyn.RefModel(
            "wave", solver.body.mesh, ref, contact, dirichlet, None, {"c": 1.5}, fi, fo, Active(p, active, interior)
        )
        u, v, t = pb.vec(u0(nodes)), pb.vec(v0(nodes)), 0.0
        case = dict(p=p, active=active, dt=dt, method=method)
        for k, s in enumerate(states, 1):
            if np.min(np.abs(u[: len(nodes)] - level)) < 1.0:
                break  # near the obstacle the law jumps
            _, wv, _ = model.step(u, v, None, t, dt)
            gv = pb.vec(s.velocity)
            ctx.close(gv, wv, "velocity of a membrane", 2e-4, scale=0.1, step=k, **case)
            u, v = pb.vec(s.displacement), gv
            t += dt
            ctx.step()
            ctx.state((job, case, k, np.round(gv, 4)))
            ctx.outcome((active, interior))
        ctx.trace()
