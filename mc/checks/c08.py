"""C08: prescribed values hold exactly in every returned state."""
import itertools

import numpy as np

from mc import laws, meshref, problems as pb, timespace as ts

MODES = ["py", "jit"]
CHUNK = 1
BOTH = [
    {"kind": "dynamic", "method": "schur", "mesh": "square2", "law": "relu", "steps": 1},
    {"kind": "wave", "method": "schur", "mesh": "square2", "law": "relu", "steps": 1},
    {"kind": "piezo_q", "method": "schur", "mesh": "square2", "law": "relu", "steps": 1},
]
DIRICHLET = {
    "left": (lambda x: x[0] == 0, None),
    "left lin": (lambda x: x[0] == 0, lambda x: 0.1 + 0.2 * x[:, 1]),
    "corner": (lambda x: x[0] == 0 and x[1] == 0, lambda x: np.full(len(x), -0.3)),
    "two": (lambda x: x[1] == 0 or x[0] >= 1.0, lambda x: 0.3 * x[:, 0] - 0.2 * x[:, 1]),
    "all": (lambda x: True, lambda x: x[:, 0] * x[:, 1] - 0.1),
    "none": (lambda x: False, None),
}
CONTACT = {"none": lambda x: False, "top": lambda x: x[1] >= 1.0, "all": lambda x: True}
# electric conditions: suffix -> (indicator, values); numbering as written by the user
ELECTRIC = {
    "plain": {"": (lambda x: x[1] == 0, lambda x: 0.5 + x[:, 0])},
    "one": {"_1": (lambda x: x[1] >= 1.0, lambda x: np.full(len(x), 0.7))},
    "two": {
        "_0": (lambda x: x[1] == 0, lambda x: x[:, 0] - 0.2),
        "_1": (lambda x: x[1] >= 1.0, lambda x: np.full(len(x), 0.7)),
    },
    "gap": {
        "_0": (lambda x: x[1] == 0, lambda x: x[:, 0] - 0.2),
        "_1": (lambda x: False, lambda x: np.zeros(len(x))),
        "_2": (lambda x: x[1] >= 1.0, lambda x: np.full(len(x), 0.7)),
    },
    "far": {
        "_2": (lambda x: x[1] == 0, lambda x: x[:, 0] - 0.2),
        "_10": (lambda x: x[1] >= 1.0, lambda x: np.full(len(x), 0.7)),
    },
}
METHODS = {
    "static": ["direct", "schur", "global"],
    "poisson": ["direct", "schur", "global"],
    "quasistatic": ["schur", "global"],
    "dynamic": ["direct", "schur", "global"],
    "relaxation": ["schur", "global"],
    "wave": ["direct", "schur", "global"],
    "temperature": ["direct", "schur", "global"],
    "piezo_q": ["schur", "global"],
    "piezo_d": ["direct", "schur", "global"],
}
MESHES = ["tri", "square2", "square4", "lshape", "ring", "two"]


def bounds(tier):
    return {
        "kinds and methods": METHODS,
        "meshes": MESHES + ["tet", "tet2", "box1", "box2 (static and Poisson)"],
        "boundaries": "6 Dirichlet descriptions x 3 contact indicators; 5 sets of plain and numbered electric conditions",
        "initial data": list(ts.INITIAL),
        "steps": 3 if tier == "thorough" else 2,
        "laws": ["zero", "relu"],
    }


def jobs(tier, mode):
    yield from BOTH
    if mode == "jit":
        return
    t = tier == "thorough"
    for mesh in MESHES:
        big = len(meshref.get_mesh(mesh)[0]) > 5
        for kind, methods in METHODS.items():
            for m in methods:
                if m == "global" and not t and mesh not in ("tri", "square2"):
                    continue
                if m == "global" and big and mesh != "lshape":
                    continue
                for law in ("zero", "relu"):
                    for e in ELECTRIC if kind.startswith("piezo") else [None]:
                        if big and not t and law == "zero":
                            continue
                        if mesh == "ring" and not t and kind in ("temperature", "piezo_q") and m != "direct":
                            continue
                        yield {
                            "kind": kind, "method": m, "mesh": mesh, "law": law, "steps": 3 if t else 2, "electric": e,
                        }


    for mesh in ("tet", "tet2", "box1", "box2"):
        for m in ("direct", "global"):
            if m == "direct" or mesh == "tet2" or t:
                yield {"kind": "static", "method": m, "mesh": mesh, "law": "zero", "steps": 3 if t else 2}
        yield {"kind": "poisson", "method": "direct", "mesh": mesh, "law": "zero", "steps": 3 if t else 2}


def warmup(mode):
    one(None, "static", "square2", "direct", "relu", "left lin", "top", None, "rest", 1)


def one(ctx, kind, mesh_name, method, law, dirichlet, contact, electric, init, steps):
    arrays = meshref.get_mesh(mesh_name)
    pred, value = DIRICHLET[dirichlet]
    ref = meshref.MeshRef(*arrays)
    d3 = arrays[0].shape[1] == 3
    fi, fo = ts.loads(kind, "push")
    if d3 and kind == "static":
        fi, fo = (lambda x, t: np.array([0.2, -0.3 * x[0], x[2]])), (lambda x, t: np.array([0.1, 0.2, -0.4]))
    if dirichlet == "none" and kind in ("static", "poisson"):
        return  # not solvable
    if kind in ("static", "poisson", "quasistatic", "relaxation", "piezo_q"):
        # every component must be held
        parts = components(ref)
        held = 1 if kind == "poisson" else 3 if d3 else 2
        if any(sum(1 for p in part & ref.boundary_points if pred(ref.points[p])) < held for part in parts):
            return
    L = laws.LAWS[law]()
    no_law = method == "direct" and (d3 or kind in ("poisson", "wave"))
    kw = dict(law=None if no_law else L.conmech(), law2=None if method == "direct" else pb.zero_law()())
    if kind == "poisson":
        kw["law"] = None
        kw["law2"] = None if method == "direct" else L.conmech()
    bd = {"contact": CONTACT[contact], "dirichlet": pred if value is None else (pred, value)}
    if kind.startswith("piezo"):
        conds = ELECTRIC[electric]
        sets = [on(ref, c) for c, _ in conds.values()]
        held = set().union(*sets)
        if len(held) < sum(len(x) for x in sets):
            return  # two conditions for one node: no single prescribed value
        if any(not part & held for part in components(ref)):
            return
        for suffix, (c, v) in conds.items():
            bd["piezo_dirichlet" + suffix] = (c, v)
    solver = pb.make_solver(kind, arrays, bd, method, inner=fi, outer=fo, **kw)
    data = ts.initial(kind, init)
    if d3:
        data = {"u0": (lambda x: 0.1 * x) if init == "moving" else None}
    elif kind == "static":
        data = {"u0": data["u0"]}
    s0 = (lambda x: 0.3 * x[:, 0] + 0.1) if init == "moving" else None
    states = pb.solve(kind, solver, n_steps=steps, output_step=list(range(1, steps + 1)), s0=s0, **data)
    if ctx is None:
        return
    mesh = solver.body.mesh
    nodes = np.asarray(mesh.nodes, dtype=float)
    kk = meshref.keys(nodes)
    dn = [i for i, p in enumerate(kk) if p in ref.boundary_points and pred(ref.points[p])]
    val = np.zeros(len(dn)) if value is None or not dn else value(nodes[dn])
    case = dict(mesh=mesh_name, dirichlet=dirichlet, contact=contact, init=init, electric=electric)
    what = f"{kind}, {method}"
    u0 = np.zeros(nodes.shape) if data.get("u0") is None else data["u0"](nodes)
    both = np.column_stack([val] + [val if kind != "wave" else 0 * val] * (nodes.shape[1] - 1))
    for k, s in enumerate(states, 1):
        ctx.step()
        if kind == "poisson":
            ctx.close(np.asarray(s.temperature, dtype=float).reshape(-1)[dn], val, f"prescribed value ({what})", 1e-12, **case)
            continue
        if kind in ("static", "relaxation"):
            ctx.close(s.displacement[dn], both, f"prescribed displacement ({what})", 1e-12, **case)
        else:
            ctx.close(s.velocity[dn], both, f"prescribed velocity ({what})", 1e-12, **case)
            ctx.close(
                s.displacement[dn], u0[dn] + 0.25 * k * both, f"motion of prescribed nodes ({what})", 1e-12, **case
            )
        if kind == "temperature":
            ctx.close(s.temperature[dn], val, f"prescribed temperature ({what})", 1e-12, **case)
        if kind.startswith("piezo"):
            for c, v in ELECTRIC[electric].values():
                there = on(ref, c)
                en = [i for i, p in enumerate(kk) if p in there]
                want = v(nodes[en]) if en else np.zeros(0)
                ctx.close(s.electric_potential[en], want, f"prescribed potential ({what})", 1e-12, **case)
        ctx.check(
            all(np.all(np.isfinite(np.asarray(f, dtype=float))) for f in (s.displacement, s.velocity)),
            "a result is not finite",
            **case,
        )
    ctx.trace()
    ctx.state((kind, method, mesh_name, law, dirichlet, contact, electric, init))
    ctx.outcome((kind, dirichlet, len(dn)))
    ctx.observe(np.concatenate([np.asarray(s.displacement).ravel()[:8] for s in states]))


def on(ref, indicator):
    """Points of the named boundary: those of the facets whose midpoint satisfies the indicator."""
    return set().union(*(f for f in ref.facets if indicator(ref.midpoint(f))))


def components(ref):
    parts = []
    for el in ref.elements:
        el = set(el)
        rest = []
        for p in parts:
            if p & el:
                el |= p
            else:
                rest.append(p)
        parts = rest + [el]
    return parts


def run(job, ctx):
    ctx.sample(job)
    kind = job["kind"]
    electric = job.get("electric") if kind.startswith("piezo") else None
    if kind.startswith("piezo") and electric is None:
        electric = "gap"
    few = job["steps"] == 1
    inits = ["moving"] if few else ["rest", "moving"]
    if kind == "poisson":
        inits = ["rest"]
    coupled = kind in ("temperature", "piezo_q", "piezo_d")
    heavy = job["steps"] == 2 and job["method"] != "direct" and len(meshref.get_mesh(job["mesh"])[0]) > 5
    if heavy or (job["steps"] == 2 and coupled):
        inits = inits[-1:]
    for d, c, i in itertools.product(DIRICHLET, CONTACT, inits):
        if heavy and c == "all" and (d != "two" or coupled):
            continue
        if few and (d, c) not in (("left lin", "top"), ("two", "all")):
            continue
        if electric is not None and not few and d not in ("left lin", "two"):
            continue
        one(ctx, kind, job["mesh"], job["method"], job["law"], d, c, electric, i, job["steps"])
