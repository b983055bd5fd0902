"""C01: a mesh keeps the geometry it was built from."""
import itertools

import numpy as np

from mc import meshes, meshref
from mc.core import quiet

MODES = ["py", "jit"]
ASSUMPTIONS = ["node coordinates are distinct"]


def bounds(tier):
    return {
        "meshes": "all 255 sub-complexes of a 2x2 triangle grid, all 63 of a Kuhn cube, 18 named meshes",
        "node numberings": "every permutation for meshes with up to 5 nodes"
        + (" (6 and 7 nodes in thorough)" if tier == "thorough" else "")
        + "; all transpositions, rotations and the reversal for larger ones",
        "vertex orders inside elements": "all for meshes of at most 2 elements",
        "element orders": "all for up to 4 elements",
        "unused nodes": "every insertion pattern of at most 2 nodes",
        "initial position": "none, origin, and a shifted one",
        "scales": "%d size/offset combinations (1e-8 to 1e6, offsets to 1e6), compared to 1e-13 of the largest coordinate"
        % len(AFFINE),
    }


# size and offset of a mesh whose coordinates are not exact in binary
AFFINE = [
    (1 / 3, 0.1), (0.1, 1000.1), (1e-3, 1000.1), (1e-8, 0.0), (1e6 / 3, -7e5), (0.7e-4, 1e6), (-1 / 7, 0.0),
]


NAMED = list(meshes.catalogue_2d()) + list(meshes.catalogue_3d())


def jobs(tier, mode):
    if mode == "jit":
        for m in ["tri", "lshape", "ring", "tet", "box2"]:
            yield {"kind": "pos", "mesh": m}
            yield {"kind": "affine", "mesh": m}
        yield {"kind": "orphans", "mesh": "square2", "k": 1}
        return
    for m in NAMED:
        yield {"kind": "pos", "mesh": m}
        yield {"kind": "affine", "mesh": m}
    for m in meshref.LARGE:
        yield {"kind": "affine", "mesh": m}
    for lo in range(1, 256, 32):
        yield {"kind": "sub", "dim": 2, "lo": lo, "hi": min(lo + 32, 256)}
    for lo in range(1, 64, 16):
        yield {"kind": "sub", "dim": 3, "lo": lo, "hi": min(lo + 16, 64)}
    for m in NAMED:
        n = len(meshref.get_mesh(m)[0])
        if n <= (5 if tier == "quick" else 7):
            yield {"kind": "perm", "mesh": m}
        else:
            yield {"kind": "swap", "mesh": m, "full": tier == "thorough"}
    for m in ["tri", "tri_obtuse", "square2", "dart", "tet", "tet2"]:
        yield {"kind": "vertex", "mesh": m, "full": tier == "thorough"}
    for m in ["square2", "square4", "dart", "two", "tet2"]:
        yield {"kind": "elorder", "mesh": m}
    for m in ["tri", "square2", "square4", "lshape", "tet", "tet2"] + (
        ["ring", "box2"] if tier == "thorough" else []
    ):
        for k in (1, 2):
            yield {"kind": "orphans", "mesh": m, "k": k}


def warmup(mode):
    one(meshref.get_mesh("tri"), None, "x0", "y0", None)
    one(meshref.get_mesh("tet"), None, "x0", "y0", None)


def one(arrays, position, contact, dirichlet, ctx, where=None):
    from conmech.mesh.boundaries_description import BoundariesDescription
    from conmech.mesh.mesh import Mesh

    nodes, elements = arrays
    if position is not None:
        position = np.array(position[: nodes.shape[1]])
    descr = meshes.array_description(nodes, elements, position)
    bd = BoundariesDescription(
        contact=meshref.PREDICATES[contact], dirichlet=meshref.PREDICATES[dirichlet]
    )
    mesh = Mesh(mesh_descr=descr, boundaries_description=bd)
    if ctx is None:
        return
    ref = meshref.MeshRef(nodes, elements, position)
    ctx.step(8)  # the build and the seven queries below
    ctx.trace()
    got = meshref.keys(mesh.nodes)
    ctx.state((sorted(got), len(mesh.elements)))
    where = {"position": position, "contact": contact, "dirichlet": dirichlet, "where": where}
    ctx.check(len(got) == len(set(got)), "a node occurs twice", got=got, **where)
    ctx.check(
        set(got) == set(ref.points), "points differ from those the elements use", got=got, **where
    )
    els = sorted(sorted(e) for e in meshref.facet_keys(mesh.nodes, mesh.elements))
    want = sorted(sorted(e) for e in ref.elements)
    ctx.check(els == want, "elements (as sets of points) differ from the input", got=els, **where)
    edges = meshref.facet_keys(mesh.nodes, mesh.edges)
    ctx.check(len(edges) == len(ref.edges) and set(edges) == ref.edges, "edge list", **where)
    pts = np.array(list(ref.points.values()))
    ctx.close(mesh.scale, pts.max(axis=0) - pts.min(axis=0), "scale", 1e-12, **where)
    ctx.check(mesh.dimension == ref.dim and mesh.nodes_count == len(ref.points), "sizes", **where)
    ctx.check(mesh.edges_number == len(ref.edges), "edges_number", **where)
    ctx.close(
        mesh.normalized_initial_nodes + np.mean(mesh.nodes, axis=0), mesh.nodes, "normalised nodes", 1e-12
    )
    ctx.outcome((sorted(els), len(edges)))
    ctx.observe(mesh.nodes)
    ctx.observe(mesh.elements)


def affine(nodes, elements, scale, offset, ctx):
    """A mesh of any size and place: points are kept to (almost) the last digit."""
    from conmech.mesh.boundaries_description import BoundariesDescription
    from conmech.mesh.mesh import Mesh

    shift = offset * np.arange(1, nodes.shape[1] + 1)
    given = scale * nodes + shift
    for mirror in (False, True):
        els = elements[:, ::-1] if mirror else elements
        bd = BoundariesDescription(contact=lambda x: True, dirichlet=lambda x: False)
        mesh = Mesh(mesh_descr=meshes.array_description(given, els), boundaries_description=bd)
        ctx.step(6)
        ctx.trace()
        where = {"scale": scale, "offset": offset}
        used = np.unique(elements)
        dist = np.abs(np.asarray(mesh.nodes, dtype=float)[:, None, :] - given[used][None, :, :]).max(axis=2)
        near = used[dist.argmin(axis=1)]
        ctx.check(
            sorted(near) == sorted(used), "points are lost or doubled", got=mesh.nodes, **where
        )
        err = float(dist.min(axis=1).max())
        ctx.check(err <= 1e-13 * np.abs(given).max(), "points are not where they were given", err=err, **where)
        got = sorted(sorted(near[e]) for e in mesh.elements)
        want = sorted(sorted(e) for e in elements)
        ctx.check(np.array_equal(got, want), "elements differ from the input", got=got, **where)
        edges = {frozenset(near[e]) for e in mesh.edges}
        ctx.check(
            edges == {frozenset(p) for e in elements for p in itertools.combinations(e, 2)}
            and len(mesh.edges) == len(edges),
            "edge list",
            **where,
        )
        size = given[used].max(axis=0) - given[used].min(axis=0)
        ctx.check(
            np.allclose(mesh.scale, size, rtol=1e-9, atol=1e-13 * np.abs(given).max()),
            "scale",
            got=mesh.scale,
            want=size,
            **where,
        )
        ctx.state((scale, offset, str(got)))
        ctx.outcome(str(got))
        ctx.observe(mesh.nodes)


POS = [None, (0.0, 0.0, 0.0), (-3.0, 2.5, 1.25)]
PAIRS = [("y0", "x0"), ("none", "none"), ("all", "y_gt_half")]


def run(job, ctx):
    ctx.sample(job)
    kind = job["kind"]
    if kind == "sub":
        for mask in range(job["lo"], job["hi"]):
            arrays = (meshref.sub_mesh_2d if job["dim"] == 2 else meshref.sub_mesh_3d)(mask)
            for pos, (c, d) in itertools.product(POS, PAIRS):
                one(arrays, pos, c, d, ctx, {"mask": mask})
        return
    nodes, elements = meshref.get_mesh(job["mesh"])
    n = len(nodes)
    if kind == "affine":
        for scale, offset in AFFINE:
            affine(nodes, elements, scale, offset, ctx)
    elif kind == "pos":
        for pos in POS:
            for c, d in itertools.product(["none", "all", "x0", "y0"], repeat=2):
                one((nodes, elements), pos, c, d, ctx)
    elif kind == "perm":
        for p in itertools.permutations(range(n)):
            one(meshes.relabel(nodes, elements, p), POS[2], "y0", "x0", ctx, {"perm": p})
    elif kind == "swap":
        perms = [list(range(n))[::-1]] + [list(np.roll(range(n), k)) for k in range(n)]
        for i, j in itertools.combinations(range(n), 2):
            p = list(range(n))
            p[i], p[j] = p[j], p[i]
            perms.append(p)
        if job["full"]:
            perms += [q[::-1] for q in perms]
        for p in perms:
            one(meshes.relabel(nodes, elements, p), None, "y0", "x0", ctx, {"perm": p})
    elif kind == "vertex":
        orders = list(itertools.permutations(range(elements.shape[1])))
        for combo in itertools.product(orders, repeat=len(elements)):
            els = np.array([el[list(o)] for el, o in zip(elements, combo)])
            one((nodes, els), None, "y0", "x0", ctx, {"orders": combo})
    elif kind == "elorder":
        for p in itertools.permutations(range(len(elements))):
            one((nodes, elements[list(p)]), None, "y0", "x0", ctx, {"elements": p})
    elif kind == "orphans":
        for where in itertools.combinations_with_replacement(range(n + 1), job["k"]):
            arrays = meshes.add_orphans(nodes, elements, where)
            for pos in POS:
                one(arrays, pos, "y0", "x0", ctx, {"orphans": where})
