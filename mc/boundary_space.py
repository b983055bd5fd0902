"""The space of (mesh, contact predicate, Dirichlet predicate) explored by C02, C03 and C04."""
import itertools

import numpy as np

from mc import meshes, meshref

P = list(meshref.PREDICATES)
NAMED = list(meshes.catalogue_2d()) + list(meshes.catalogue_3d())


def bounds(tier):
    t = tier == "thorough"
    return {
        "predicates": f"all {len(P)}x{len(P)} pairs of a catalogue on every mesh; every labelling of "
        "boundary nodes and facet midpoints by {none, contact, Dirichlet, both} on one triangle"
        + (" and on a square of two triangles and one tetrahedron" if t else ""),
        "meshes": "18 named 2D and 3D meshes, all 255 sub-complexes of a 2x2 grid, all 63 of a Kuhn cube",
        "large meshes": "306 and 26 nodes (2D), 294 nodes (3D), 3 pairs of predicates",
        "sizes": ("every named mesh" if t else "6 meshes") + " at 2^-16, 2^-8 and 2^10 times the size",
        "numberings": "the given one and its reversal" + (" and all rotations" if t else ""),
    }


SCALES = [2.0**-16, 2.0**-8, 2.0**10]  # powers of two: the predicates stay exact


def jobs(tier, mode):
    if mode == "jit":
        for m in ["tri", "square4", "lshape", "ring", "tet2", "box2"]:
            yield {"kind": "named", "mesh": m, "renumber": 0}
        return
    t = tier == "thorough"
    for m in NAMED:
        n = len(meshref.get_mesh(m)[0])
        for r in [0, -1] + (list(range(1, n)) if t else []):
            yield {"kind": "named", "mesh": m, "renumber": r}
    for m in NAMED if t else ["square4", "lshape", "dart", "ring", "tet2", "box2"]:
        for scale in SCALES:
            yield {"kind": "named", "mesh": m, "renumber": -1, "scale": scale}
    for m in ("large", "large3", "row"):
        yield {"kind": "named", "mesh": m, "renumber": -1, "pairs": [["x0", "y0"], ["all", "x0"], ["diag", "x_le_1"]]}
    for dim, top, width in ((2, 256, 8), (3, 64, 4)):
        for lo in range(1, top, width):
            yield {"kind": "sub", "dim": dim, "lo": lo, "hi": min(lo + width, top), "full": t}
    for m in ["tri"] + (["square2", "tet"] if t else []):
        total = 4 ** (6 if m == "tri" else 8)
        width = 512
        for lo in range(0, total, width):
            yield {"kind": "label", "mesh": m, "lo": lo, "hi": min(total, lo + width)}


def renumber(arrays, r):
    nodes, elements = arrays
    n = len(nodes)
    if r == 0:
        return arrays
    perm = list(range(n))[::-1] if r == -1 else list(np.roll(range(n), r))
    return meshes.relabel(nodes, elements, perm)


def build(nodes, elements, contact, dirichlet, **other):
    from conmech.mesh.boundaries_description import BoundariesDescription
    from conmech.mesh.mesh import Mesh

    return Mesh(
        mesh_descr=meshes.array_description(nodes, elements),
        boundaries_description=BoundariesDescription(contact=contact, dirichlet=dirichlet, **other),
    )


def cases(job):
    """Yield (case name, nodes, elements, ref, contact, dirichlet)."""
    if job["kind"] == "label":
        nodes, elements = meshref.get_mesh(job["mesh"])
        ref = meshref.MeshRef(nodes, elements)
        for code in range(job["lo"], job["hi"]):
            c, d, _ = meshref.labelled_predicates(ref, code)
            yield f"{job['mesh']}/label={code}", nodes, elements, ref, c, d
        return
    if job["kind"] == "named":
        sources = [(job["mesh"], renumber(meshref.get_mesh(job["mesh"]), job["renumber"]))]
        scale = job.get("scale", 1.0)
        sources = [(name, (scale * nodes, elements)) for name, (nodes, elements) in sources]
        if job["renumber"]:
            sources = [(f"{job['mesh']}@{job['renumber']}", sources[0][1])]
        pairs = itertools.product(P, P)
    else:
        make = meshref.sub_mesh_2d if job["dim"] == 2 else meshref.sub_mesh_3d
        sources = [(f"s{job['dim']}:{m}", make(m)) for m in range(job["lo"], job["hi"])]
        if job["full"]:
            sources += [(n + "@-1", renumber(a, -1)) for n, a in sources]
        pairs = itertools.product(P, P)
    pairs = [tuple(p) for p in job.get("pairs", pairs)]
    scale = job.get("scale", 1.0)
    scaled = lambda f: f if scale == 1.0 else (lambda x: f(x / scale))
    for name, (nodes, elements) in sources:
        ref = meshref.MeshRef(nodes, elements)
        for c, d in pairs:
            yield (
                f"{name}/contact={c}/dirichlet={d}",
                nodes,
                elements,
                ref,
                scaled(meshref.PREDICATES[c]),
                scaled(meshref.PREDICATES[d]),
            )


def warmup(mode):
    for m in ("tri", "tet"):
        build(*meshref.get_mesh(m), meshref.PREDICATES["x0"], meshref.PREDICATES["y0"])
