"""C21: solutions do not depend on how the same body is numbered, placed or oriented."""
import itertools

import numpy as np

from mc import laws, meshref, meshes, problems as pb, timespace as ts

MODES = ["py"]
CHUNK = 1
S = np.sqrt(0.5)
C3 = np.cos(0.5), np.sin(0.5)
MOTIONS = {
    "shift": (np.eye(2), [3.0, -2.0]),
    "turn90": ([[0, -1], [1, 0]], [0, 0]),
    "turn180": ([[-1, 0], [0, -1]], [0, 0]),
    "turn270": ([[0, 1], [-1, 0]], [1.0, 0.5]),
    "flip x": ([[-1, 0], [0, 1]], [0, 0]),
    "flip y": ([[1, 0], [0, -1]], [0, 0]),
    "swap": ([[0, 1], [1, 0]], [0, 0]),
    "antiswap": ([[0, -1], [-1, 0]], [0, 0]),
    "turn45": ([[S, -S], [S, S]], [0, 0]),
    "turn and shift": ([[C3[0], -C3[1]], [C3[1], C3[0]]], [-1.0, 0.3]),
    "flip and turn": ([[C3[0], C3[1]], [C3[1], -C3[0]]], [0.2, 5.0]),
}
MOTIONS3 = {
    "shift": (np.eye(3), [1.0, -2.0, 0.5]),
    "cycle": ([[0, 1, 0], [0, 0, 1], [1, 0, 0]], [0, 0, 0]),
    "swap": ([[0, 1, 0], [1, 0, 0], [0, 0, 1]], [0, 0, 0]),
    "flip z": ([[1, 0, 0], [0, 1, 0], [0, 0, -1]], [0, 0, 0]),
    "turn": ([[C3[0], -C3[1], 0], [C3[1], C3[0], 0], [0, 0, 1]], [0, 0.1, 0]),
    "turn x": ([[1, 0, 0], [0, C3[0], -C3[1]], [0, C3[1], C3[0]]], [0, 0, 0]),
}
SETUPS = ["bottom/top", "right/left", "none/left", "left/right", "bottom/top tilted"]
KINDS = ["static", "poisson", "quasistatic", "dynamic", "wave", "relaxation", "temperature", "piezo_q", "piezo_d"]
STILL = ("static", "quasistatic", "relaxation")
LAW = {"wave": ["compliance", "relu"], "static": ["relu", "friction"], "dynamic": ["stick", "compliance"], "quasistatic": ["friction"]}


def bounds(tier):
    return {
        "kinds": KINDS,
        "motions": list(MOTIONS) + [f"3D {m}" for m in MOTIONS3],
        "numberings": "all 24 node numberings x 36 vertex orders of square2; all cyclic shifts and reversals of the others",
        "setups": SETUPS,
        "meshes": ["square2", "square4", "lshape", "dart", "tet2", "box1"],
        "methods": "schur; direct without contact; global (square2)",
    }


def methods(kind):
    if kind in ("static", "poisson", "dynamic", "wave", "temperature", "piezo_d"):
        return ["schur", "direct"]
    return ["schur"]


def jobs(tier, mode):
    t = tier == "thorough"
    for kind in KINDS:
        for mesh in ["square2", "square4", "lshape", "dart"]:
            for method in methods(kind) + (["global"] if mesh == "square2" and (t or kind in ("static", "dynamic", "wave")) else []):
                for law in LAW.get(kind, ["relu"]) if method != "direct" else ["none"]:
                    for s in SETUPS if t or method == "direct" else SETUPS[::2] if mesh != "square2" else SETUPS[::-2]:
                        if mesh == "dart" and (kind.startswith("piezo") or kind in STILL and s in ("left/right",)):
                            continue  # nothing to hold the potential, or one node to hold the body
                        if kind.startswith("piezo") and s in ("bottom/top tilted",) and not t:
                            continue
                        yield {"kind": kind, "mesh": mesh, "method": method, "law": law, "setup": s, "full": t}
    for mesh in ("tet2", "box1"):
        for method in ("direct", "global"):
            yield {"kind": "static", "mesh": mesh, "method": method, "law": "none", "setup": "3d", "full": t}


def solve(job, arrays, Q, shift):
    """Fields of the body moved by x -> Q x + shift, moved back: {point: values}."""
    kind = job["kind"]
    d = len(Q)
    back = lambda y: np.round((np.asarray(y) - shift) @ Q, 10)
    nodes, elements = arrays
    moved = nodes @ Q.T + shift
    if job["setup"] == "3d":
        contact, dirichlet, value = (lambda x: False), (lambda x: x[2] == 0 if job["mesh"] == "box1" else x[0] == 0), None
        fi = lambda x, t: np.array([0.3 + x[1], -0.4 * x[0], 0.2])
        fo = lambda x, t: np.array([0.1, x[2], -0.3])
    else:
        contact, dirichlet, value, _ = ts.SETUPS[job["setup"]]
        fi, fo = ts.loads(kind, "push")
    scalar = kind in ("wave", "poisson")
    turn = (lambda f: f) if scalar else (lambda f: Q @ f)
    bd = {"contact": lambda y: contact(back(y))}
    held = lambda y: dirichlet(back(y))
    bd["dirichlet"] = held if value is None else (held, lambda y: value(back(y)))
    if kind.startswith("piezo"):
        bd["piezo_dirichlet_0"] = (lambda y: back(y)[1] == 0, lambda y: 0.5 + back(y)[:, 0])
    L = None if job["law"] == "none" else laws.LAWS[job["law"]]()
    no_second = job["method"] == "direct"
    kw = dict(law=L.conmech() if L else None, law2=None if no_second else laws.LAWS["spring"]().conmech())
    if kind == "static" and job["setup"] == "3d" and job["method"] == "global":
        kw["law"] = pb.zero_law()()
    if kind == "temperature":
        kw.update(te=Q @ (0.2 * pb.TE) @ Q.T, tc=Q @ pb.TC @ Q.T)
        if not no_second:
            kw["law2"] = pb.zero_law()()
    if kind.startswith("piezo"):
        kw.update(pz=np.einsum("ai,bj,ck,ijk->abc", Q, Q, Q, 0.2 * pb.PZ), pm=Q @ np.array([[1.0, 0.2], [0.2, 2.0]]) @ Q.T)
        if not no_second:
            kw["law2"] = pb.zero_law()()
    solver = pb.make_solver(
        kind, (moved, elements), bd, job["method"], inner=lambda y, t: turn(fi(back(y), t)), outer=lambda y, t: turn(fo(back(y), t)),
        **kw,
    )
    data = ts.initial(kind, "rest" if d == 3 or no_second and kind in ("dynamic", "wave") else "moving")
    if kind in ("static", "poisson"):
        data = {}
    else:
        vecs = ("u0", "v0", "b0")
        mv = (lambda f: (lambda y: f(back(y)))) if scalar else (lambda f: (lambda y: f(back(y)) @ Q.T))
        data = {k: None if data[k] is None else mv(data[k]) for k in vecs}
    s0 = (lambda y: 0.4 * back(y)[:, 0] - 0.3 * back(y)[:, 1] + 0.1) if kind in ("temperature", "piezo_q", "piezo_d") else None
    if s0 is not None:
        data["s0"] = s0
    steps = 1 if no_second and kind in ("dynamic", "wave") else 2
    s = pb.solve(kind, solver, n_steps=steps, **data)[-1]
    where = [meshref.key(x) for x in back(solver.body.mesh.nodes)]
    rows = []
    for f in ("displacement", "velocity"):
        a = np.asarray(getattr(s, f), dtype=float)
        rows.append(a if scalar else a @ Q)
    for f, kinds in (("temperature", ("temperature", "poisson")), ("electric_potential", ("piezo_q", "piezo_d"))):
        if kind in kinds:
            rows.append(np.asarray(getattr(s, f), dtype=float).reshape(-1, 1))
    table = np.hstack(rows)
    return {p: table[i] for i, p in enumerate(where)}


def variants(job):
    nodes, elements = meshref.get_mesh(job["mesh"])
    d, n = nodes.shape[1], len(nodes)
    eye = np.eye(d)
    tilted = job["setup"] != "3d" and ts.SETUPS[job["setup"]][2] is not None
    for name, (Q, shift) in (MOTIONS if d == 2 else MOTIONS3).items():
        if job["kind"] == "relaxation" and name != "shift":
            continue  # the relaxation tensor of conmech is bound to the axes
        if tilted and job["kind"] not in ("poisson", "wave") and name not in ("shift", "swap"):
            continue  # the same value is prescribed for every component
        yield name, (nodes, elements), np.array(Q, dtype=float), np.array(shift, dtype=float)
    if n <= 4 and d == 2 and (job["full"] or job["kind"] in ("static", "dynamic", "wave") and job["method"] != "global"):
        perms = itertools.permutations(range(n))
    else:
        perms = [np.roll(np.arange(n), k) for k in range(1, n)] + [np.arange(n)[::-1]]
    for k, perm in enumerate(perms):
        a, e = meshes.relabel(nodes, elements, perm)
        e = np.array([np.roll(el if (k + i) % 2 else el[::-1], k + i) for i, el in enumerate(e)])
        if k % 3 == 1:
            e = e[::-1]
        yield f"numbering {list(map(int, perm))}", (a, e), eye, np.zeros(d)


def run(job, ctx):
    ctx.sample(job)
    arrays = meshref.get_mesh(job["mesh"])
    d = arrays[0].shape[1]
    want = solve(job, arrays, np.eye(d), np.zeros(d))
    order = sorted(want)
    w = np.array([want[p] for p in order])
    direct = job["method"] == "direct"
    coupled = job["kind"] in ("temperature", "piezo_q", "piezo_d")
    tol = (1e-5 if coupled else 1e-9) if direct else 2e-4
    for name, arr, Q, shift in variants(job):
        got = solve(job, arr, Q, shift)
        ctx.check(sorted(got) == order, "the moved body has other nodes", variant=name)
        if sorted(got) == order:
            ctx.close([got[p] for p in order], w, f"solution of the same body ({job['kind']}, {job['method']})", tol, scale=0.1, variant=name)
        ctx.step()
        ctx.trace()
        ctx.state((job, name))
    ctx.outcome(np.round(w, 4))
