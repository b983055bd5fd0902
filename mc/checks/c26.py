"""C26: the chosen minimiser and its options do not change what is computed."""
import itertools

import numpy as np

from mc import laws, meshref, problems as pb, refdyn, timespace as ts
from mc.checks import c11

MODES = ["py", "jit"]
CHUNK = 1
KINDS = ["static", "quasistatic", "dynamic", "wave", "relaxation", "poisson"]
MESHES = ["square2", "square4", "dart"]
MINIMISERS = ["BFGS", "L-BFGS-B", "Powell", "SLSQP", "trust-constr", "nelder-mead", "powell", "l-bfgs-b"]
LAWS = {
    "static": ["relu", "friction"],
    "quasistatic": ["stick"],
    "dynamic": ["relu", "friction"],
    "wave": ["relu"],
    "relaxation": ["relu"],
    "poisson": ["relu"],
}
SETUPS = ["bottom/top", "bottom/top tilted", "left/right"]
# options of an earlier call on the same solver (its own result may be poor)
EARLIER = [{"maxiter": 1}, {"tol": 1.0}, {"method": "Powell", "tol": 0.1}, {"method": "L-BFGS-B", "maxiter": 1}]
# the analytic gradient of conmech is exact where the law has no response
GRADIENTED = ["gradiented BFGS", "gradiented L-BFGS-B", "gradiented SLSQP"]
VECTOR = ["static", "quasistatic", "dynamic", "relaxation"]
OPTIONS = [{}, {"maxiter": 100000}, {"tol": 1e-11, "method": "SLSQP"}, {"verbose": False}]


def bounds(tier):
    return {
        "kinds": KINDS,
        "meshes": MESHES if tier == "thorough" else MESHES[:2],
        "minimisers": MINIMISERS,
        "earlier calls (static, dynamic, wave)": [str(o) for o in EARLIER],
        "with gradient": f"{GRADIENTED} for {VECTOR} without response, and one known finding with response",
        "options (static, dynamic, wave)": [str(o) for o in OPTIONS],
        "configurations": "3 boundary descriptions x " + ("2 loads" if tier == "thorough" else "1 load") + " x the laws of the kind, "
        "schur and global, from a bent, moving body" + (" and from rest" if tier == "thorough" else ""),
        "steps": 2,
    }


BOTH = [
    {"kind": "static", "mesh": "square4", "method": "schur", "law": "friction", "setup": "bottom/top tilted", "full": False},
    {"kind": "wave", "mesh": "square2", "method": "global", "law": "relu", "setup": "bottom/top", "full": False},
]


def jobs(tier, mode):
    yield from BOTH
    if mode == "jit":
        return
    t = tier == "thorough"
    for kind, mesh, setup in itertools.product(KINDS, MESHES if t else MESHES[:2], SETUPS):
        if kind == "poisson" and setup != "bottom/top":
            continue
        for method, law in itertools.product(("schur", "global"), LAWS[kind]):
            yield {"kind": kind, "mesh": mesh, "method": method, "law": law, "setup": setup, "full": t}
    for kind, setup, method in itertools.product(VECTOR, SETUPS, ("schur", "global")):
        yield {"kind": kind, "mesh": "square4", "method": method, "law": "slope0", "setup": setup, "full": False, "calls": GRADIENTED}
    yield {"kind": "static", "mesh": "square4", "method": "schur", "law": "relu", "setup": "bottom/top", "full": False, "calls": GRADIENTED[:1]}


def warmup(mode):
    if mode == "jit":
        build("static", "square2", "schur", "friction", "bottom/top", "push")[0]()


def build(kind, mesh, method, law, setup, load):
    arrays = meshref.get_mesh(mesh)
    contact, dirichlet, value, _ = ts.SETUPS[setup]
    fi, fo = ts.loads(kind, load)
    if kind in ("static", "poisson"):
        gi, go = fi, fo
        fi, fo = (lambda x, t: gi(x, 0.2)), (lambda x, t: go(x, 0.2))
    L = laws.LAWS["relu"](0.0) if law == "slope0" else laws.LAWS[law]()
    bd = {"contact": contact, "dirichlet": dirichlet if value is None else (dirichlet, value)}
    ref = meshref.MeshRef(*arrays)
    kw = {"law2" if kind == "poisson" else "law": L.conmech()}
    mat = {} if kind == "poisson" else dict(ts.MATERIAL)
    make = lambda: pb.make_solver(kind, arrays, bd, method, inner=fi, outer=fo, dt=0.25, c=1.5, **mat, **kw)
    par = dict(ts.MATERIAL, c=1.0 if kind == "poisson" else 1.5, relax=pb.relaxation)
    model = lambda mesh: refdyn.RefModel(kind, mesh, ref, contact, dirichlet, value, par, fi, fo, L)
    return make, model


def system(model, kind, u, v, b, t, dt):
    if kind == "poisson":
        return model.A, model.force(0.0), np.zeros(model.n)
    return model.system(u, v, b, t, dt)


def run(job, ctx):
    ctx.sample(job)
    kind, method = job["kind"], job["method"]
    for load, init in itertools.product(["push", "swing"] if job["full"] else ["push"], ["rest", "moving"] if job["full"] else ["moving"]):
        make, model_of = build(kind, job["mesh"], method, job["law"], job["setup"], load)
        if kind == "poisson" and init == "rest":
            continue
        solver = make()
        model = model_of(solver.body.mesh)
        if kind != "poisson" and c11.unsolvable(model, 0.25):
            continue
        unknowns = model.n if method == "global" else len({q for f, _, _ in model.contact for q in f})
        unknowns *= model.width
        data = ts.initial(kind, init)
        if kind == "static":
            data = {"u0": data["u0"], "v0": None, "b0": None}
        elif kind == "poisson":
            data = {"u0": None, "v0": None, "b0": None}
        calls = [{"method": m} for m in MINIMISERS] + (OPTIONS if kind in ("static", "dynamic", "wave") else OPTIONS[:1])
        if "calls" in job:
            calls = [{"method": m} for m in job["calls"]]
        elif kind in ("static", "dynamic", "wave"):
            for first in EARLIER:
                used = make()
                pb.solve(kind, used, n_steps=1, **{k: v for k, v in data.items() if v is not None or k != "b0"}, **first)
                one(ctx, job, used, kind, model_of, data, {}, load, init, after=first)
        for kw in calls:
            name = kw.get("method", "BFGS")
            if name.lower() == "nelder-mead" and unknowns > 6:
                continue
            one(ctx, job, make(), kind, model_of, data, kw, load, init)


def one(ctx, job, solver, kind, model_of, data, kw, load, init, after=None):
    steps = 1 if kind in ("static", "poisson") else 2
    args = {k: v for k, v in data.items() if v is not None or k != "b0"}
    states = pb.solve(kind, solver, n_steps=steps, output_step=list(range(1, steps + 1)), **args, **kw)
    mesh = solver.body.mesh
    model = model_of(mesh)
    nodes = np.asarray(mesh.nodes, dtype=float)
    field = lambda f: np.zeros(nodes.shape) if f is None else f(nodes)
    u, v, b = (pb.vec(field(data[k])) for k in ("u0", "v0", "b0"))
    dt, t = (0.25, 0.0) if kind not in ("static", "poisson") else (0.0, 0.0)
    what = f"{kind}, {kw.get('method', 'default')}"
    case = {k: job[k] for k in ("mesh", "method", "law", "setup")}
    case = dict(solver=case.pop("method"), options=str(kw), after=str(after), load=load, init=init, **case)
    key = None
    if job.get("calls") and job["law"] == "relu":
        key = "/".join((kw["method"].replace(" ", "-"), kind, case["solver"], job["mesh"], job["setup"]))
    for k, s in enumerate(states, 1):
        lhs, rhs, seen = system(model, kind, u, v, b, t, dt)
        x = model.minimise(lhs, rhs, seen, dt, model.law)
        if kind == "poisson":
            got = s.temperature
        elif kind in ("static", "relaxation"):
            got = pb.vec(s.displacement)
        else:
            got = pb.vec(s.velocity)[: model.width * model.n]
        ctx.close(got, x, f"solution ({what})", 2e-4, scale=0.1, key=key, step=k, **case)
        ctx.step()
        ctx.state((kind, case, k))
        ctx.outcome((kind, np.round(got, 3)))
        if kind not in ("static", "poisson"):
            u, v, b = pb.vec(s.displacement), pb.vec(s.velocity), pb.vec(s.absement)
            t += dt
        ctx.observe(got)
    ctx.trace()
