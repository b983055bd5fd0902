"""C04: unit outward normals."""
import numpy as np

from mc import boundary_space as bs
from mc import meshref

MODES = ["py", "jit"]
warmup = bs.warmup

# In 3D a normal is only trusted by the repository itself when the boundary is of one class, see
# known-findings.txt; mixed 3D boundaries are explored on these cases only.
MIXED_3D = {"tet2/contact=y0/dirichlet=x0", "box1/contact=y0/dirichlet=x0", "box2/contact=y0/dirichlet=x0"}


def bounds(tier):
    b = bs.bounds(tier)
    b["3D"] = "single-class boundaries (one of contact, Neumann, Dirichlet) and three mixed cases"
    return b


def jobs(tier, mode):
    for j in bs.jobs(tier, mode):
        if j["kind"] == "label" and j["mesh"] == "tet":
            continue
        yield j


def run(job, ctx):
    ctx.sample(job)
    for name, nodes, elements, ref, contact, dirichlet in bs.cases(job):
        if ref.dim == 3 and name not in MIXED_3D:
            if sum(bool(x) for x in ref.classify_facets(contact, dirichlet)) != 1:
                continue
        mesh = bs.build(nodes, elements, contact, dirichlet)
        ctx.step(3)
        ctx.trace()
        facets = meshref.facet_keys(mesh.nodes, mesh.boundary_surfaces)
        normals = np.asarray(mesh.boundaries.surface_normals, dtype=float)
        if not ctx.check(normals.shape == (len(ref.facets), ref.dim), "number of normals", case=name):
            continue
        for f, normal in zip(facets, normals):
            want = ref.outward(f)
            if not np.max(np.abs(normal - want)) <= 1e-9:
                mid = ",".join(f"{x:g}" for x in ref.midpoint(f))
                got = normal.tolist()
                ctx.fail(
                    f"normal {got} at facet with centre ({mid}), expected {want.tolist()}",
                    key=name if name in MIXED_3D else None,
                    case=name,
                )
        cf = meshref.facet_keys(mesh.nodes, mesh.contact_boundary)
        cn = np.asarray(mesh.boundaries.contact_normals, dtype=float)
        if ctx.check(cn.shape == (len(cf), ref.dim), "number of contact normals", case=name):
            bysurf = dict(zip(facets, normals))
            for f, normal in zip(cf, cn):
                ctx.check(
                    np.array_equal(normal, bysurf[f]),
                    "contact normal does not belong to its facet",
                    case=name,
                )
        ctx.state((sorted(ref.points), normals.tolist()))
        ctx.outcome(sorted(normals.round(6).tolist()))
        ctx.observe(normals)
