"""C05: mesh generators tile the domain they describe; imported meshes are the ones in the file."""
import itertools
import os
import tempfile

import numpy as np

from mc import meshes, meshref

MODES = ["py", "jit"]
BARBOTEU = [(0, 1), (1, 0), (3, 0), (3, 1), (1.5, 1), (1, 1.5), (1, 4), (0, 4)]
POLY = [(0.0, 0.2), (1.0, 0.0), (1.1, 1.4), (0.1, 0.9)]
FORMATS = ["vtk", "vtu", "msh", "mesh", "stl"]
ASSUMPTIONS = ["generators based on dmsh and meshzoo are not installed here and are not explored"]


def bounds(tier):
    return {
        "cross meshes": "9 widths x 9 heights x 6 element sizes x 3 positions; 4 of these domains, coarse to fine, "
        "at 5 magnifications from 1e-7 to 1e4",
        "gmsh meshes": "6 shapes x 3 or 4 scales x "
        + ("7" if tier == "thorough" else "4")
        + " element sizes x 3 positions; 2 extruded 3D shapes; every 2D shape at 3 magnifications",
        "imported": "18 named meshes, two with hundreds of nodes and all sub-complexes, formats vtk, vtu, msh, mesh, with extra "
        "vertex/line/triangle cells, flat meshes with and without a third coordinate, 3 positions",
    }


SIDES = [0.25, 0.5, 0.75, 1.0, 1.2, 1.5, 2.0, 2.3, 3.0]
SIZES = [0.25, 0.3, 0.5, 0.7, 1.0, 4.0]
POS = [None, (0.0, 0.0, 0.0), (-3.0, 2.5, 1.25)]


def jobs(tier, mode):
    if mode == "jit":
        for sx in (0.5, 1.2, 2.0):
            yield {"kind": "cross", "sx": sx}
        return
    for sx in SIDES:
        yield {"kind": "cross", "sx": sx}
    for f in (1e-7, 1e-5, 1e-3, 1e2, 1e4):
        yield {"kind": "tiny", "factor": f}
    sizes = [0.2, 0.3, 0.5, 0.8] + ([0.15, 0.4, 1.0] if tier == "thorough" else [])
    for f in (1e-4, 1e-2, 1e2):
        for shape in ("rectangle", "polygon", "spline"):
            for s in ((1.0, 1.0), (0.5, 1.5)):
                yield {"kind": "gmsh", "shape": shape, "h": 0.3, "scale": s, "unit": f}
        yield {"kind": "gmsh", "shape": "circle", "h": 0.3, "scale": 1.0, "unit": f}
    for h in sizes:
        for shape in ("rectangle", "polygon", "spline"):
            for s in ((1.0, 1.0), (2.0, 1.0), (0.5, 1.5), (1.4, 2.8)):
                yield {"kind": "gmsh", "shape": shape, "h": h, "scale": s}
        for r in (0.5, 1.0, 2.0):
            yield {"kind": "gmsh", "shape": "circle", "h": h, "scale": r}
        yield {"kind": "gmsh", "shape": "barboteu", "h": h, "scale": 1.0}
        yield {"kind": "gmsh", "shape": "polygon3d", "h": h, "scale": 1.0}
        yield {"kind": "gmsh", "shape": "twist", "h": h, "scale": 1.0}
    yield {"kind": "fixed"}
    for m in list(meshes.catalogue_2d()) + list(meshes.catalogue_3d()) + ["large", "large3"]:
        yield {"kind": "import", "mesh": m}
    step = 1 if tier == "thorough" else 5
    for lo in range(1, 256, 16):
        yield {"kind": "import_sub", "dim": 2, "lo": lo, "hi": min(256, lo + 16), "step": step}
    for lo in range(1, 64, 16):
        yield {"kind": "import_sub", "dim": 3, "lo": lo, "hi": min(64, lo + 16), "step": step}


def build(descr):
    from conmech.mesh.boundaries_description import BoundariesDescription
    from conmech.mesh.mesh import Mesh

    return Mesh(mesh_descr=descr, boundaries_description=BoundariesDescription())


def warmup(mode):
    from conmech.properties.mesh_description import CrossMeshDescription

    build(CrossMeshDescription(None, 1.0, [1.0, 1.0]))


def polygon_area(pts):
    x, y = np.array(pts, dtype=float).T
    return 0.5 * abs(np.dot(x, np.roll(y, -1)) - np.dot(y, np.roll(x, -1)))


def tiling(ctx, mesh, name):
    """Conforming, non-degenerate, neighbours on opposite sides. Returns (total volume, longest edge)."""
    nodes, elements = np.asarray(mesh.nodes, dtype=float), np.asarray(mesh.elements)
    dim = nodes.shape[1]
    x = nodes[elements]
    vol = np.linalg.det(x[:, 1:] - x[:, :1]) / (2 if dim == 2 else 6)
    size = np.max(nodes, axis=0) - np.min(nodes, axis=0)
    ctx.check(np.min(np.abs(vol)) > 1e-9 * np.prod(size), "an element has no volume", case=name)
    facets = {}
    for el in elements:
        for a in range(dim + 1):
            facets.setdefault(frozenset(np.delete(el, a).tolist()), []).append(int(el[a]))
    for f, opp in facets.items():
        if len(opp) == 1:
            continue
        if len(opp) > 2:
            ctx.fail("a facet belongs to more than two elements", case=name)
            continue
        p = nodes[sorted(f)]
        side = [np.sign(np.linalg.det(np.vstack((p[1:] - p[0], nodes[o] - p[0])))) for o in opp]
        ctx.check(side[0] * side[1] < 0, "neighbouring elements overlap", case=name)
    edges = nodes[np.asarray(mesh.edges)]
    longest = float(np.max(np.linalg.norm(edges[:, 0] - edges[:, 1], axis=1)))
    boundary = [sorted(f) for f, o in facets.items() if len(o) == 1]
    ctx.trace()
    ctx.step(len(elements) + len(facets))
    ctx.state((np.sort(nodes, axis=0), len(elements)))
    ctx.outcome((len(nodes), len(elements), float(np.sum(np.abs(vol)))))
    return float(np.sum(np.abs(vol))), longest, nodes, boundary


def box(ctx, nodes, lo, hi, name, tol=1e-9):
    ctx.close(nodes.min(axis=0), np.array(lo, dtype=float), "lower corner of the bounding box", tol, case=name)
    ctx.close(nodes.max(axis=0), np.array(hi, dtype=float), "upper corner of the bounding box", tol, case=name)


def on_polygon(p, poly):
    for a, b in zip(poly, np.roll(poly, -1, axis=0)):
        t = b - a
        n = np.array([-t[1], t[0]]) / np.linalg.norm(t)
        if abs(np.dot(p - a, n)) < 1e-7 and -1e-9 <= np.dot(p - a, t) <= np.dot(t, t) * (1 + 1e-9):
            return True
    return False


def run(job, ctx):
    from conmech.properties import mesh_description as md

    ctx.sample(job)
    pos_of = lambda pos, dim: None if pos is None else np.array(pos[:dim])
    kind = job["kind"]
    if kind == "cross":
        sx = job["sx"]
        for sy, h, pos in itertools.product(SIDES, SIZES, POS):
            name = f"cross {sx}x{sy} h={h} at {pos}"
            mesh = build(md.CrossMeshDescription(pos_of(pos, 2), h, [sx, sy]))
            vol, longest, nodes, _ = tiling(ctx, mesh, name)
            ctx.close(vol, sx * sy, "area of a cross mesh", case=name)
            lo = np.array((pos or (0, 0))[:2], dtype=float)
            box(ctx, nodes, lo, lo + (sx, sy), name)
            ctx.check(longest <= h * (1 + 1e-9), f"edge of length {longest} in a mesh of size {h}", case=name)
            ctx.observe(nodes)
    elif kind == "tiny":
        f = job["factor"]
        for (sx, sy, h), pos in itertools.product(
            ((1.0, 1.0, 0.5), (1.0, 1.0, 0.1), (2.3, 0.25, 0.2), (0.25, 3.0, 0.125)), POS
        ):
            sx, sy, h = sx * f, sy * f, h * f
            pos = None if pos is None else tuple(c * f for c in pos)
            name = f"cross {sx}x{sy} h={h} at {pos}"
            mesh = build(md.CrossMeshDescription(pos_of(pos, 2), h, [sx, sy]))
            vol, longest, nodes, _ = tiling(ctx, mesh, name)
            ctx.close(vol / (sx * sy), 1.0, "area of a cross mesh, relative to the described one", case=name)
            lo = np.array((pos or (0, 0))[:2], dtype=float)
            box(ctx, nodes / f, lo / f, (lo + (sx, sy)) / f, name)
            ctx.check(longest <= h * (1 + 1e-9), f"edge of length {longest} in a mesh of size {h}", case=name)
            ctx.observe(nodes / f)
    elif kind == "gmsh":
        h, s, shape = job["h"], job["scale"], job["shape"]
        unit = job.get("unit", 1.0)  # the shape is built magnified by it and measured in it
        make = {
            "rectangle": lambda p: md.PgmshRectangleMeshDescription(p, h * unit, [c * unit for c in s]),
            "polygon": lambda p: md.PolygonMeshDescription(p, h * unit, [c * unit for c in s]),
            "spline": lambda p: md.SplineMeshDescription(p, h * unit, [c * unit for c in s]),
            "circle": lambda p: md.CircleMeshDescription(p, h * unit, s * unit),
            "barboteu": lambda p: md.Barboteu2008MeshDescription(p, h),
            "polygon3d": lambda p: md.Polygon3DMeshDescription(p, h),
            "twist": lambda p: md.TwistMeshDescription(p, h),
        }[shape]
        dim = 3 if shape in ("polygon3d", "twist") else 2
        for pos in POS:
            name = f"{shape} scale={s} h={h} at {pos} x {unit}"
            mesh = build(make(None if pos is None else pos_of(pos, dim) * unit))
            vol, longest, nodes, boundary = tiling(ctx, mesh, name)
            vol, longest, nodes = vol / unit**dim, longest / unit, nodes / unit
            low = nodes.min(axis=0)
            if pos is not None:
                ctx.close(low, np.array(pos[:dim]), "initial position", case=name)
            if dim == 3:
                box(ctx, nodes, low, low + 1.0, name)
                ctx.check(vol > 0.1, "volume of a 3D shape", case=name, vol=vol)
                if shape == "polygon3d":
                    ctx.close(vol, 0.5534759358288769, "volume of the extruded polygon", 1e-6, case=name)
                continue
            ctx.check(longest <= 1.5 * h, f"edge of length {longest} in a mesh of size {h}", case=name)
            poly = None
            if shape == "rectangle":
                poly = np.array([(0, 0), (s[0], 0), s, (0, s[1])], dtype=float)
            elif shape == "polygon":
                poly = np.array([(a * s[0] / 1.4, b * s[1] / 1.4) for a, b in POLY])
            elif shape == "barboteu":
                poly = np.array(BARBOTEU, dtype=float)
            if poly is not None:
                ctx.close(vol, polygon_area(poly), "area of a polygon", 1e-7, case=name)
                shifted = poly - poly.min(axis=0) + low
                corners = {tuple(np.round(n, 6)) for n in nodes}
                for c in shifted:
                    ctx.check(
                        any(np.max(np.abs(n - c)) < 1e-7 for n in nodes), f"corner {c} missing", case=name
                    )
                for f in boundary:
                    m = nodes[f].mean(axis=0)
                    ctx.check(on_polygon(m, shifted), f"boundary edge at {m} not on the outline", case=name)
            elif shape == "circle":
                centre = np.array([s, s]) if pos is None else None
                if centre is not None:
                    for f in boundary:
                        ctx.close(
                            np.linalg.norm(nodes[f] - centre, axis=1), np.full(2, s), "radius", 1e-7, case=name
                        )
                ctx.check(
                    np.pi * s * s * (1 - 0.9 * (h / s) ** 2 / 4) - 1e-9 <= vol <= np.pi * s * s
                    or h > s,
                    f"area {vol} of a circle of radius {s}",
                    case=name,
                )
            else:
                ctx.check(0.6 * s[0] * s[1] < vol < 1.2 * s[0] * s[1], f"area {vol}", case=name)
    elif kind == "fixed":
        for pos in POS:
            mesh = build(md.CubeMeshDescription(pos_of(pos, 3)))
            vol, _, nodes, _ = tiling(ctx, mesh, f"cube at {pos}")
            lo = np.array(pos or (0, 0, 0), dtype=float)
            box(ctx, nodes, lo, lo + 1, "cube")
            ctx.close(vol, 1.0, "volume of the cube")
            mesh = build(md.BallMeshDescription(pos_of(pos, 3)))
            vol, _, nodes, boundary = tiling(ctx, mesh, f"ball at {pos}")
            if pos is not None:
                ctx.close(nodes.min(axis=0), lo, "initial position of the ball")
            centre = 0.5 * (nodes.min(axis=0) + nodes.max(axis=0))
            r = np.linalg.norm(nodes - centre, axis=1).max()
            ctx.check(0.8 * 4 / 3 * np.pi * r**3 * 0.5 < vol < 4 / 3 * np.pi * r**3, "volume of the ball", vol=vol)
    else:
        if kind == "import":
            sources = [(job["mesh"], meshref.get_mesh(job["mesh"]))]
        else:
            f = meshref.sub_mesh_2d if job["dim"] == 2 else meshref.sub_mesh_3d
            sources = [(f"{m}", f(m)) for m in range(job["lo"], job["hi"], job["step"])]
        for name, (nodes, elements) in sources:
            imported(ctx, name, nodes, elements)


def imported(ctx, name, nodes, elements):
    import meshio

    from conmech.properties import mesh_description as md

    dim = nodes.shape[1]
    cell = "triangle" if dim == 2 else "tetra"
    lines = elements[:, :2]
    tris = elements[:, :3]
    flat = np.hstack((nodes, np.zeros((len(nodes), 1)))) if dim == 2 else nodes
    variants = [
        ("plain", [(cell, elements)]),
        ("lines first", [("line", lines), (cell, elements)]),
        ("lines last", [(cell, elements), ("line", lines)]),
        ("vertices", [("vertex", np.arange(len(nodes)).reshape(-1, 1)), ("line", lines), (cell, elements)]),
    ]
    if dim == 3:
        variants.append(("surface triangles", [("triangle", tris), (cell, elements)]))
        variants.append(("surface triangles last", [(cell, elements), ("triangle", tris)]))
    if len(elements) > 1:
        variants.append(("split blocks", [(cell, elements[:1]), (cell, elements[1:])]))
    with tempfile.TemporaryDirectory() as tmp:
        for fmt, (what, cells), pos in itertools.product(["vtk", "vtu", "msh", "mesh"], variants, POS):
            if fmt == "mesh" and what == "vertices":
                continue  # not representable in medit files
            for pts in ([nodes, flat] if dim == 2 and fmt in ("mesh",) else [flat]):
                path = os.path.join(tmp, f"m.{fmt}")
                try:
                    kw = {"file_format": "gmsh22", "binary": True} if fmt == "msh" else {}
                    meshio.write(path, meshio.Mesh(pts, cells), **kw)
                except Exception:  # the writer of this format does not support the variant
                    continue
                position = None if pos is None else np.array(pos[:dim])
                mesh = build(md.ImportedMeshDescription(position, path))
                ref = meshref.MeshRef(nodes, elements, position)
                case = f"{name} {fmt} {what} at {pos}"
                got = meshref.keys(mesh.nodes)
                ctx.trace()
                ctx.step(3)
                ctx.check(
                    len(got) == len(ref.points) and set(got) == set(ref.points), "imported points", case=case
                )
                els = sorted(sorted(e) for e in meshref.facet_keys(mesh.nodes, mesh.elements))
                ctx.check(els == sorted(sorted(e) for e in ref.elements), "imported elements", case=case)
                ctx.state((sorted(got), els))
                ctx.outcome(els)
