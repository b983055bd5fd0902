"""C07: nodal loads of inner and outer forces."""
import itertools

import numpy as np

from mc import boundary_space as bs
from mc import meshes, meshref, problems, reffem

MODES = ["py", "jit"]
TIMES = [0, 0.5, 2.0]


def bounds(tier):
    b = bs.bounds(tier)
    b["forces"] = (
        "each component alone, constant, linear and quadratic in the position, times {0, 0.5, 2}, inner only, outer "
        "only, both; loads given as integers, lists or zeros in a part of the body; vector (static, dynamic) and "
        "scalar (wave, Poisson) problems; all 9 problem classes with inner and/or outer loads left undefined"
    )
    return b


def jobs(tier, mode):
    for j in bs.jobs(tier, mode):
        if j["kind"] == "label" and tier == "quick" and j["lo"] % 1024:
            continue
        yield j
    if mode == "py":
        for m in ("tri", "square4", "lshape", "ring", "dart", "tet2", "box2"):
            yield {"kind": "wired", "mesh": m}
        for m in ("square4", "lshape"):
            for p in ("static", "poisson", "quasistatic", "dynamic", "relaxation", "wave", "temperature", "piezo_q", "piezo_d"):
                yield {"kind": "unloaded", "mesh": m, "problem": p, "method": "schur"}
        yield {"kind": "unloaded", "mesh": "box1", "problem": "static", "method": "direct"}


def shapes(d):
    """Force densities: (name, f(x, t))."""
    e = np.eye(d)
    out = [(f"e{k}", lambda x, t, k=k: e[k].copy()) for k in range(d)]
    out.append(("linear", lambda x, t: np.array([1.0 + 2 * x[0] - x[-1]] + [x[0] + 3 * x[1]] * (d - 1)) * (1 + t)))
    out.append(("quadratic", lambda x, t: np.array([x[0] * x[-1] - t] * (d - 1) + [x[0] ** 2 * (t - 1)])))
    return out


def make(nodes, elements, contact, dirichlet):
    from conmech.dynamics.dynamics import Dynamics
    from conmech.properties.body_properties import ElasticProperties
    from conmech.simulations.problem_solver import Body

    mesh = bs.build(nodes, elements, contact, dirichlet)
    body = Body(ElasticProperties(1.0, 1.0, 1.0), mesh)
    Dynamics(body)
    return body


def warmup(mode):
    for m in ("tri", "tet"):
        b = make(*meshref.get_mesh(m), meshref.PREDICATES["x0"], meshref.PREDICATES["none"])
        b.dynamics.force.inner.source = b.dynamics.force.outer.source = lambda x, t: x
        b.dynamics.force.integrate(time=0)


def neumann(fem, ref, mesh, contact, dirichlet):
    _, n, _ = ref.classify_facets(contact, dirichlet)
    idx = {k: i for i, k in enumerate(meshref.keys(mesh.nodes))}
    return [[idx[p] for p in f] for f in n]


def kinked(d):
    """Loads as users write them: integers in one part of the body and numbers in the rest, zero at some nodes."""
    def dead(x, t):
        return np.zeros(d) if x[0] < 0.75 else np.full(d, -0.5 - t)

    def mixed(x, t):
        return np.array([0] * (d - 1) + [-1]) if x[0] < 0.75 else np.full(d, 0.3 + t)

    def listed(x, t):
        return [0.5 * float(x[0])] + [0] * (d - 1)

    return [("zero then not", dead), ("integers then not", mixed), ("a list", listed)]


zero = lambda x, t: np.zeros(len(x))


def run(job, ctx):
    ctx.sample(job)
    if job["kind"] == "wired":
        return wired(job, ctx)
    if job["kind"] == "unloaded":
        return unloaded(job, ctx)
    for name, nodes, elements, ref, contact, dirichlet in bs.cases(job):
        body = make(nodes, elements, contact, dirichlet)
        mesh, force = body.mesh, body.dynamics.force
        fem = reffem.RefFem(mesh.nodes, mesh.elements)
        facets = neumann(fem, ref, mesh, contact, dirichlet)
        d = ref.dim
        forms = shapes(d) + kinked(d)
        ctx.trace()
        light = job["kind"] == "sub" and not job["full"]
        for k, (fname, f) in enumerate(forms):
            if light and fname not in ("linear", "integers then not"):
                continue
            g = forms[(k + 1) % len(forms)][1]
            for t in (TIMES[:1] if k < d else TIMES[1:2] if light or k >= d + 2 else TIMES):
                for which, (fi, fo) in (("inner", (f, zero)), ("outer", (zero, g)), ("both", (f, g))):
                    force.inner.source, force.outer.source = fi, fo
                    got = np.asarray(force.integrate(time=t), dtype=float)
                    want = fem.load(lambda x: fi(x, t), lambda x: fo(x, t), facets)
                    ctx.step()
                    ctx.close(got, fem.stack(want), f"load ({which})", 1e-9, case=name, force=fname, time=t)
                    # independent restatement: the resultant of the inner forces is their interpolant's integral
                    if which == "inner":
                        vals = np.array([fi(x, t) for x in fem.nodes])
                        total = sum(v * vals[el].mean(axis=0) for v, el in zip(fem.volumes, fem.elements))
                        ctx.close(got.reshape(d, -1).sum(axis=1), total, "resultant of inner forces", 1e-9, case=name)
                    if which == "outer":
                        vals = np.array([fo(x, t) for x in fem.nodes])
                        total = sum((fem.facet_measure(s) * vals[s].mean(axis=0) for s in facets), np.zeros(d))
                        ctx.close(got.reshape(d, -1).sum(axis=1), total, "resultant of outer forces", 1e-9, case=name)
                    ctx.outcome(got)
                    ctx.observe(got)
        ctx.state((name, sorted(sorted(f) for f in facets)))


def unloaded(job, ctx):
    """Problem classes that leave a load undefined have none of it, and start from rest by default."""
    kind, arrays = job["problem"], meshref.get_mesh(job["mesh"])
    d = arrays[0].shape[1]
    width = 1 if kind in ("wave", "poisson") else d
    ref = meshref.MeshRef(*arrays)
    bd = {"contact": meshref.PREDICATES["y0"], "dirichlet": meshref.PREDICATES["x0"]}
    if kind.startswith("piezo"):
        bd["piezo_dirichlet"] = (bd["dirichlet"], lambda x: np.zeros(len(x)))
    given = lambda x, t: np.array([1.0 + 2 * x[0] - x[-1]] + [x[0] + 3 * x[1]] * (width - 1)) * (1 + (t or 0))
    law = problems.zero_law() if job["method"] == "schur" else None
    for inner, outer in itertools.product(("default", given), repeat=2):
        name = "/".join(str(f if isinstance(f, str) else "given") for f in (inner, outer))
        solver = problems.make_solver(kind, arrays, bd, job["method"], inner=inner, outer=outer, law=law, law2=law)
        mesh = solver.body.mesh
        fem = reffem.RefFem(mesh.nodes, mesh.elements)
        facets = neumann(fem, ref, mesh, bd["contact"], bd["dirichlet"])
        sources = getattr(solver.body.dynamics, "temperature" if kind == "poisson" else "force")
        none = lambda x, t: np.zeros(width)
        fi, fo = (none if isinstance(f, str) else f for f in (inner, outer))
        for t in TIMES:
            want = fem.load(lambda x: fi(x, t), lambda x: fo(x, t), facets)
            got = np.asarray(sources.integrate(time=t), dtype=float)
            ctx.close(got.reshape(-1), fem.stack(want), f"load of a {kind} problem with undefined loads", 1e-9, case=name)
            ctx.step()
        p = solver.problem
        start = {
            k: getattr(p, a)
            for k, a in (("u0", "initial_displacement"), ("v0", "initial_velocity"), ("b0", "initial_absement"),
                         ("s0", "initial_temperature"), ("s0", "initial_electric_potential"))
            if hasattr(p, a)
        }
        if isinstance(inner, str) and isinstance(outer, str):
            for s in problems.solve(kind, solver, 1, **start):
                for field in ("displacement", "velocity", "absement", "temperature", "electric_potential"):
                    value = getattr(s, field, None)
                    if value is not None:
                        ctx.close(value, np.zeros_like(value), f"{field} of an unloaded {kind} problem", 1e-9)
        ctx.trace()
        ctx.state((kind, job["mesh"], name))


def wired(job, ctx):
    """Problem classes hand their own forces to the solver."""
    from conmech.mesh.boundaries_description import BoundariesDescription
    from conmech.scenarios import problems as pr
    from conmech.simulations import problem_solver as ps

    nodes, elements = meshref.get_mesh(job["mesh"])
    d = nodes.shape[1]
    ref = meshref.MeshRef(nodes, elements)
    contact, dirichlet = meshref.PREDICATES["y0"], meshref.PREDICATES["x0"]
    forms = shapes(d)
    for (n1, f), (n2, g) in itertools.product(forms, forms):
        mk = lambda: (
            meshes.array_description(nodes, elements),
            BoundariesDescription(contact=contact, dirichlet=dirichlet),
        )

        class Static(pr.StaticDisplacementProblem):
            @staticmethod
            def inner_forces(x, t=None):
                return f(x, t or 0)

            @staticmethod
            def outer_forces(x, t=None):
                return g(x, t or 0)

        class Poisson(pr.PoissonProblem):
            @staticmethod
            def internal_temperature(x, t=None):
                return np.array([f(x, t or 0)[0]])

            @staticmethod
            def outer_temperature(x, t=None):
                return np.array([g(x, t or 0)[0]])

        class Dyn(pr.DynamicDisplacementProblem):
            time_step = 0.1
            th_coef = 1.0
            ze_coef = 1.0
            inner_forces = staticmethod(Static.inner_forces)
            outer_forces = staticmethod(Static.outer_forces)

        class Wave(pr.WaveProblem):
            time_step = 0.1

            @staticmethod
            def inner_forces(x, t=None):
                return np.array([f(x, t or 0)[0]])

            @staticmethod
            def outer_forces(x, t=None):
                return np.array([g(x, t or 0)[0]])

        runs = [
            ("static", lambda: ps.StaticSolver(Static(*mk(), 1.0, 1.0, None), "direct"), "force", d),
        ]
        if d == 2:
            runs += [
                ("poisson", lambda: ps.PoissonSolver(Poisson(*mk()), "direct"), "temperature", 1),
                ("dynamic", lambda: ps.TimeDependentSolver(Dyn(*mk(), 1.0, 1.0, None), "direct"), "force", d),
                ("wave", lambda: ps.WaveSolver(Wave(*mk(), 1.0), "direct"), "force", 1),
            ]
        for what, build, field, width in runs:
            solver = build()
            mesh = solver.body.mesh
            fem = reffem.RefFem(mesh.nodes, mesh.elements)
            facets = neumann(fem, ref, mesh, contact, dirichlet)
            for t in TIMES:
                want = fem.load(lambda x: f(x, t)[:width], lambda x: g(x, t)[:width], facets)
                got = np.asarray(getattr(solver.body.dynamics, field).integrate(time=t), dtype=float)
                ctx.close(got.reshape(-1), fem.stack(want), f"load of a {what} problem", 1e-9, inner=n1, outer=n2)
                ctx.step()
                ctx.trace()
                ctx.state((job["mesh"], what, n1, n2, t))
