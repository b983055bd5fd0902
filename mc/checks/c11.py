"""C11: every time step solves its discrete evolution equation; time and position follow."""
import itertools

import numpy as np

from mc import laws, meshref, problems as pb, refdyn, timespace as ts

MODES = ["py", "jit"]
CHUNK = 1
MESHES = ["square2", "square4", "lshape", "dart", "strip3", "grid22"]
KINDS = ["quasistatic", "dynamic", "wave", "relaxation"]
LAWS = {
    "quasistatic": ["relu", "compliance", "belt", "stick", "coupled"],
    "dynamic": ["relu", "compliance", "belt", "stick", "coupled"],
    "wave": ["relu", "compliance", "spring", "interior"],
    "relaxation": ["relu", "belt", "compliance"],
}
# contact edges that end in Dirichlet nodes which move: exact when the bodies already move with them
DRIVEN = {
    "bottom/left driven": (lambda x: x[1] == 0, lambda x: x[0] == 0, lambda x: 0.1 - 0.15 * x[:, 1], True),
    "all/left driven": (lambda x: True, lambda x: x[0] == 0, lambda x: np.full(len(x), -0.12), True),
}
SETUPS = {**ts.SETUPS, **DRIVEN}
SMALL = [1e-3, 1e-5]
LONG = [1.0, 2.5]


def v_driven(setup):
    value = SETUPS[setup][2]
    return lambda x: value(x)[:, None] + np.column_stack((0.3 * x[:, 0], -0.2 * x[:, 0] * (1 + x[:, 1])))


KNOWN = "dynamic/direct/square4/bottom/top/push/moving/0.25"


def bounds(tier):
    return {
        "kinds": KINDS,
        "meshes": MESHES,
        "methods": "schur; global on meshes with at most " + ("9" if tier == "thorough" else "5") + " nodes; direct for "
        "one step from rest",
        "laws": LAWS,
        "configurations": "9 boundary descriptions x 2 time-dependent loads x 4 initial data x 2 time steps (and 1e-3, 2.5"
        + (", 1e-5, 1.0)" if tier == "thorough" else ")") + " x 2 materials; 2 descriptions with moving Dirichlet ends of contact edges",
        "steps": "4, and 60 on two meshes" if tier == "thorough" else "3, and 20 on two meshes",
    }


BOTH = [
    {"kind": "dynamic", "method": "schur", "mesh": "square4", "law": "stick", "setups": ["bottom/top tilted"], "full": False},
    {"kind": "quasistatic", "method": "schur", "mesh": "dart", "law": "belt", "setups": ["right/left"], "full": False},
    {"kind": "wave", "method": "global", "mesh": "square4", "law": "interior", "setups": ["bottom/top"], "full": False},
    {"kind": "relaxation", "method": "schur", "mesh": "square2", "law": "relu", "setups": ["bottom/top moved"], "full": False},
]


def jobs(tier, mode):
    yield from BOTH
    if mode == "jit":
        return
    t = tier == "thorough"
    for kind in KINDS:
        for law in LAWS[kind] if t else LAWS[kind][:2]:
            for mesh in ("square2", "dart"):
                yield {"kind": kind, "method": "schur", "mesh": mesh, "law": law, "setups": ["bottom/top", "right/left"], "full": t, "steps": 60 if t else 20}
    for kind, mesh in itertools.product(KINDS, MESHES):
        n = len(meshref.get_mesh(mesh)[0])
        for method in ("schur", "global"):
            if method == "global" and n > (9 if t else 5):
                continue
            for law in LAWS[kind]:
                if law == "interior" and (method == "schur" or n > 9):
                    continue
                if method == "global" and not t and law in ("belt", "spring"):
                    continue
                for s in SETUPS:
                    if method == "global" and not t and n > 4 and s not in ("bottom/top tilted", "none/left", "left/right"):
                        continue
                    yield {"kind": kind, "method": method, "mesh": mesh, "law": law, "setups": [s], "full": t}
    for kind in KINDS:
        for law in LAWS[kind]:
            if law != "interior":
                yield {"kind": kind, "method": "schur", "mesh": "row", "law": law, "setups": ["bottom/top tilted"], "full": False}
    for mesh in MESHES:
        yield {"kind": "dynamic", "method": "direct", "mesh": mesh, "law": "none", "setups": list(SETUPS), "full": t}
        yield {"kind": "wave", "method": "direct", "mesh": mesh, "law": "none", "setups": list(SETUPS), "full": t}


def warmup(mode):
    one(None, "dynamic", "square2", "schur", "relu", "bottom/top", "push", "rest", 0.25, ts.MATERIAL, 1)


def build(kind, mesh_name, method, law, setup, load, dt, mat):
    arrays = meshref.get_mesh(mesh_name)
    contact, dirichlet, value, _ = SETUPS[setup]
    fi, fo = ts.loads(kind, load)
    L = None if law == "none" else laws.LAWS[law]()
    bd = {"contact": contact, "dirichlet": dirichlet if value is None else (dirichlet, value)}
    ref = meshref.MeshRef(*arrays)
    make = lambda: pb.make_solver(
        kind, arrays, bd, method, inner=fi, outer=fo, law=L.conmech() if L else None, dt=dt, c=1.5, **mat
    )
    par = dict(mat, c=1.5, relax=pb.relaxation)
    model = lambda mesh: refdyn.RefModel(kind, mesh, ref, contact, dirichlet, value, par, fi, fo, L)
    return make, model, ref


def unsolvable(model, dt):
    zero = np.zeros(2 * model.n)
    lhs = model.system(zero, zero, zero, 0.0, dt)[0]
    free = np.setdiff1d(np.arange(len(lhs)), model.fixed)
    return len(free) > 0 and np.linalg.cond(lhs[np.ix_(free, free)]) > 1e6


def ref_mesh(ref):
    nodes = np.array(list(ref.points.values()))
    order = {k: i for i, k in enumerate(meshref.keys(nodes))}
    return type("M", (), {"nodes": nodes, "elements": np.array([[order[p] for p in el] for el in ref.elements])})


def one(ctx, kind, mesh_name, method, law, setup, load, init, dt, mat, steps):
    value, touching = SETUPS[setup][2:]
    make, model_of, ref = build(kind, mesh_name, method, law, setup, load, dt, mat)
    m0 = model_of(ref_mesh(ref))
    touches = any(set(f) & set(m0.dnodes) for f, _, _ in m0.contact)
    if touches and law not in ("none", "interior"):
        # a contact facet that ends in a Dirichlet node sees that node's previous velocity: exact if it is zero
        if method != "schur" or kind == "relaxation" and value is not None:
            return
        if init == "driven":
            pass
        elif value is not None or ts.INITIAL[init][1] is not None and kind != "relaxation":
            return
    elif init == "driven":
        return
    if unsolvable(m0, dt):
        return
    key = None
    if method == "direct" and (init != "rest" or steps > 1 or value is not None):
        key = f"{kind}/direct/{mesh_name}/{setup}/{load}/{init}/{dt}"
        if key != KNOWN or mat is not ts.MATERIAL:
            return  # see known-findings.txt: only the first step from rest is solved by the direct method
    solver = make()
    if init == "driven":
        v0 = v_driven(setup)
        data = {"u0": None, "v0": ts.first(v0) if kind == "wave" else v0, "b0": None}
    else:
        data = ts.initial(kind, init)
    states = pb.solve(kind, solver, n_steps=steps, output_step=list(range(1, steps + 1)), **data)
    if ctx is None:
        return
    mesh = solver.body.mesh
    nodes = np.asarray(mesh.nodes, dtype=float)
    model = model_of(mesh)
    field = lambda f: np.zeros(nodes.shape) if f is None else f(nodes)
    u, v, b = (pb.vec(field(data[k])) for k in ("u0", "v0", "b0"))
    if kind == "relaxation":
        v = 0 * v
    else:
        b = 0 * b
    t = 0.0
    case = dict(mesh=mesh_name, setup=setup, load=load, init=init, dt=dt)
    tol = 1e-9 if method == "direct" else 2e-4
    what = f"{kind}, {method}, {law}"
    for k, s in enumerate(states, 1):
        wu, wv, wb = model.step(u, v, b, t, dt)
        gu, gv, gb = pb.vec(s.displacement), pb.vec(s.velocity), pb.vec(s.absement)
        if kind == "relaxation":
            ctx.close(gu, wu, f"displacement of a step ({what})", tol, step=k, scale=0.05, **case)
            ctx.close(gb, b + dt * gu, f"absement ({kind})", 1e-12, step=k, **case)
        else:
            ctx.close(gv, wv, f"velocity of a step ({what})", tol, key=key, scale=0.1, step=k, **case)
            ctx.close(gu, u + dt * gv, f"displacement follows velocity ({kind})", 1e-12, step=k, **case)
        t += dt
        ctx.close(s.time, t, "time", 1e-12, **case)
        ctx.close(s.displaced_nodes, nodes + s.displacement, "position of displaced nodes", 1e-12, **case)
        u, v, b = gu, gv, gb
        ctx.step()
        ctx.state((kind, mesh_name, law, setup, load, init, dt, mat["mu"], k, np.round(gu, 4)))
        g, _ = model.contact_terms(gv[: model.width * model.n], u[: model.width * model.n], dt, model.law, model.width)
        ctx.outcome((kind, (np.abs(g) > 1e-6).tolist()))
        ctx.observe(gu)
    ctx.trace()


def run(job, ctx):
    ctx.sample(job)
    kind, full = job["kind"], job["full"]
    if full:
        combos = list(itertools.product(["push", "swing"], ts.INITIAL, [0.25, 0.05], [ts.MATERIAL, ts.SOFT]))
        combos += list(itertools.product(["push"], ["moving"], SMALL, [ts.MATERIAL, ts.SOFT]))
        combos += list(itertools.product(["push", "swing"], ["moving"], LONG, [ts.MATERIAL, ts.SOFT]))
    else:
        combos = [
            ("push", "moving", 0.25, ts.MATERIAL),
            ("swing", "bent", 0.1, ts.SOFT),
            ("push", "rest", 0.1, ts.SOFT),
            ("push", "moving", 1e-3, ts.MATERIAL),
        ] + [("swing", "spun", 2.5, ts.MATERIAL)] * (job["mesh"] in ("square2", "dart", "lshape"))
    if job["method"] == "direct":
        combos += [(l, "rest", dt, ts.MATERIAL) for l in ("push", "swing") for dt in (0.25, 0.05)]
    if job.get("steps"):
        combos = combos[:1]
    for setup in job["setups"]:
        if setup in DRIVEN:
            combos = [(l, "driven", dt, m) for l, _, dt, m in combos]
        for load, init, dt, mat in combos:
            steps = job.get("steps") or (4 if full else 3)
            if job["method"] == "direct" and init == "rest":
                steps = 1
            one(ctx, kind, job["mesh"], job["method"], job["law"], setup, load, init, dt, mat, steps)
