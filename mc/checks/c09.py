"""C09: static and Poisson solutions satisfy the discrete balance equations, with every method."""
import itertools

import numpy as np

from mc import meshes, meshref, problems as pb, reffem

MODES = ["py", "jit"]
N2 = [m for m in meshes.catalogue_2d()]
N3 = list(meshes.catalogue_3d())

DIRICHLET = {
    "x0": (lambda x: x[0] == 0, None),
    "lin": (lambda x: x[0] <= 0.5, lambda x: 0.1 + 0.2 * x[:, 1] - 0.05 * x[:, 0]),
    "bottom": (lambda x: x[1] == 0, lambda x: np.full(len(x), -0.3)),
    "all": (lambda x: True, lambda x: 0.3 * x[:, 0] ** 2),
    "two sides": (lambda x: x[1] == 0 or x[0] == 0, lambda x: x[:, 0] * x[:, 1] + 0.25 * x[:, 0]),
}
CONTACT = {
    "none": lambda x: False,
    "top": lambda x: x[1] >= 1.0,
    "x_big": lambda x: x[0] > 0.75,
    "all": lambda x: True,
}
MATERIALS = [(4.0, 3.0), (1.0, 0.0), (0.5, 10.0)]


def inner(x, t):
    return np.array([0.3 + x[1], -0.4 * (1 + x[0]), 0.2 * x[-1]][: len(x)])


def outer(x, t):
    return np.array([0.2 * x[1], 0.1 + 0.2 * x[0] * x[1], -0.3][: len(x)])


GUESS = {
    "zero": None,
    "callable": lambda x: 0.1 * x - 0.05,
    "array": "array",
    "near": "near",  # close to the solution, but not it
}


def bounds(tier):
    return {
        "meshes": "18 named meshes, all 255 sub-complexes of a 2x2 grid (direct) and all 63 of a Kuhn cube (direct)",
        "configurations": "5 Dirichlet descriptions x 4 contact indicators x 3 materials x 4 initial guesses; methods "
        "direct, schur, global (3D: direct, global); elastic and Poisson problems; singular systems are skipped",
    }


def jobs(tier, mode):
    if mode == "jit":
        for kind, mesh, method in (
            ("static", "square4", "schur"),
            ("static", "lshape", "global"),
            ("static", "grid22", "direct"),
            ("poisson", "square4", "schur"),
            ("poisson", "lshape", "global"),
            ("static", "tet2", "global"),
        ):
            yield {"kind": kind, "mesh": mesh, "method": method, "dirichlet": "lin", "contact": "top", "full": False}
        return
    t = tier == "thorough"
    for kind in ("static", "poisson"):
        for m in N2:
            for d, c in itertools.product(DIRICHLET, CONTACT):
                for method in ("direct", "schur", "global"):
                    big = len(meshref.get_mesh(m)[0]) > 9
                    if method == "global" and big and not t and (c != "top" or d not in ("lin", "two sides")):
                        continue
                    yield {"kind": kind, "mesh": m, "method": method, "dirichlet": d, "contact": c, "full": t}
        for m in ("large", "row"):
            for method in ("direct", "schur"):
                if (m, method) != ("large", "schur"):
                    yield {"kind": kind, "mesh": m, "method": method, "dirichlet": "lin", "contact": "top", "full": False}
        for lo in range(1, 256, 16):
            yield {"kind": kind, "dim": 2, "lo": lo, "hi": min(256, lo + 16), "method": "direct"}
            if t:
                yield {"kind": kind, "dim": 2, "lo": lo, "hi": min(256, lo + 16), "method": "schur"}
    for m in N3:
        for d, c in itertools.product(DIRICHLET, CONTACT):
            yield {"kind": "static", "mesh": m, "method": "direct", "dirichlet": d, "contact": c, "full": True}
            yield {"kind": "poisson", "mesh": m, "method": "direct", "dirichlet": d, "contact": c, "full": True}
            if m in ("tet", "tet2", "box1") and (t or c == "top"):
                yield {"kind": "static", "mesh": m, "method": "global", "dirichlet": d, "contact": c, "full": False}
    for lo in range(1, 64, 8):
        yield {"kind": "static", "dim": 3, "lo": lo, "hi": min(64, lo + 8), "method": "direct"}


def warmup(mode):
    explore(None, "static", "tri", meshref.get_mesh("tri"), "direct", "x0", "top", MATERIALS[0], "zero")


def explore(ctx, kind, name, arrays, method, dirichlet, contact, material, guess, law=True):
    nodes, elements = arrays
    d = nodes.shape[1]
    pred, value = DIRICHLET[dirichlet]
    bd = {"contact": CONTACT[contact], "dirichlet": pred if value is None else (pred, value)}
    ref = meshref.MeshRef(nodes, elements)
    width = d if kind == "static" else 1
    fi = inner if kind == "static" else (lambda x, t: inner(x, t)[:1])
    fo = outer if kind == "static" else (lambda x, t: outer(x, t)[:1])
    # decide solvability on the reference, before touching the implementation
    fem0 = reffem.RefFem(*meshes.compress(nodes, elements))
    dpts = [i for i, p in enumerate(fem0.nodes) if meshref.key(p) in ref.boundary_points and pred(p)]
    lhs0 = fem0.isotropic(*material) if kind == "static" else fem0.laplace(1.0)
    free = np.setdiff1d(np.arange(len(lhs0)), [i + k * fem0.n for k in range(width) for i in dpts])
    if len(free) and np.linalg.cond(lhs0[np.ix_(free, free)]) > 1e7:
        return False
    use_law = law and not (method == "direct" and (d == 3 or kind == "poisson"))
    zl = pb.zero_law()() if use_law else None
    kw = {"law": zl} if kind == "static" else {"law2": zl}
    solver = pb.make_solver(kind, arrays, bd, method, inner=fi, outer=fo, mu=material[0], la=material[1], **kw)
    mesh = solver.body.mesh
    fem = reffem.RefFem(mesh.nodes, mesh.elements)
    idx = {k: i for i, k in enumerate(meshref.keys(mesh.nodes))}
    _, nf, _ = ref.classify_facets(CONTACT[contact], pred)
    rhs = fem.stack(fem.load(lambda x: fi(x, 0), lambda x: fo(x, 0), [[idx[p] for p in f] for f in nf]))
    dn = np.array(sorted(idx[p] for p in ref.boundary_points if pred(ref.points[p])), dtype=int)
    val = np.zeros(len(dn)) if value is None or not len(dn) else value(fem.nodes[dn])
    lhs = fem.isotropic(*material) if kind == "static" else fem.laplace(1.0)
    want = reffem.solve_dirichlet(
        lhs, rhs, np.concatenate([dn + k * fem.n for k in range(width)]), np.tile(val, width)
    )
    u0 = GUESS[guess]
    if guess == "array":
        u0 = 0.2 - 0.1 * mesh.nodes
    if guess == "near":
        u0 = 1.004 * want.reshape(width, -1).T
    state = pb.solve(kind, solver, u0=u0)[0]
    if ctx is None:
        return True
    got = pb.vec(state.displacement) if kind == "static" else np.asarray(state.temperature, dtype=float).reshape(-1)
    ctx.close(
        got,
        want,
        f"{kind} solution, {method}",
        1e-8 if method == "direct" else 2e-5,
        mesh=name,
        dirichlet=dirichlet,
        contact=contact,
        material=material,
        guess=guess,
    )
    if kind == "static":
        ctx.close(
            np.asarray(state.displaced_nodes), mesh.nodes + np.asarray(state.displacement), "displaced nodes", 1e-12
        )
    ctx.step(2)
    ctx.trace()
    ctx.state((kind, name, dirichlet, contact, material, guess, method))
    ctx.outcome((got))
    ctx.observe(got)
    return True


def run(job, ctx):
    ctx.sample(job)
    if "mesh" in job:
        arrays = meshref.get_mesh(job["mesh"])
        combos = itertools.product(MATERIALS, GUESS) if job["full"] or job["method"] == "direct" else (
            (MATERIALS[0], "zero"),
            (MATERIALS[2], "callable"),
            (MATERIALS[1], "array"),
            (MATERIALS[0], "near"),
        )
        if job["method"] == "global" and not job["full"]:
            combos = ((MATERIALS[0], "callable"),)
        for mat, guess in combos:
            if job["kind"] == "poisson" and (mat != MATERIALS[0] or guess in ("array", "near")):
                continue
            explore(
                ctx, job["kind"], job["mesh"], arrays, job["method"], job["dirichlet"], job["contact"], mat, guess
            )
    else:
        f = meshref.sub_mesh_2d if job["dim"] == 2 else meshref.sub_mesh_3d
        for m in range(job["lo"], job["hi"]):
            for d, c in itertools.product(DIRICHLET, CONTACT):
                explore(
                    ctx, job["kind"], f"s{job['dim']}:{m}", f(m), job["method"], d, c, MATERIALS[0], "zero", law=False
                )
