"""C03: boundary facets, named boundaries and the values attached to their nodes."""
import numpy as np

from mc import boundary_space as bs
from mc import meshref

MODES = ["py", "jit"]
jobs, warmup = bs.jobs, bs.warmup


def bounds(tier):
    b = bs.bounds(tier)
    b["named boundaries"] = "two further named boundaries per case, predicates taken from the same catalogue"
    return b


def value_d(nodes):
    return 10.0 + nodes[:, 0] + 100.0 * nodes[:, 1]


def value_a(nodes):
    return -1.0 - 3.0 * nodes[:, 0] - 7.0 * nodes[:, 1]


def value_b(nodes):
    return np.full(nodes.shape[0], 0.25) * nodes[:, -1]


NAMES = list(meshref.PREDICATES)


def run(job, ctx):
    ctx.sample(job)
    for k, (name, nodes, elements, ref, contact, dirichlet) in enumerate(bs.cases(job)):
        pa = meshref.PREDICATES[NAMES[k % len(NAMES)]]
        pb = meshref.PREDICATES[NAMES[(k // 3 + 1) % len(NAMES)]]
        mesh = bs.build(
            nodes, elements, contact, (dirichlet, value_d), left=(pa, value_a), piezo_1=(pb, value_b)
        )
        c, n, d = ref.classify_facets(contact, dirichlet)
        ctx.step(7)
        ctx.trace()
        for what, got, want in (
            ("contact facets", mesh.contact_boundary, c),
            ("Neumann facets", mesh.neumann_boundary, n),
            ("Dirichlet facets", mesh.dirichlet_boundary, d),
            ("boundary facets", mesh.boundary_surfaces, set(ref.facets)),
        ):
            f = meshref.facet_keys(mesh.nodes, got)
            ctx.check(
                len(f) == len(want) and set(f) == want,
                f"{what}: got {len(f)} ({len(set(f))} distinct), expected {len(want)}",
                case=name,
                got=sorted(sorted(x) for x in f),
                want=sorted(sorted(x) for x in want),
            )
        ctx.check(mesh.boundary_surfaces_count == len(ref.facets), "boundary_surfaces_count", case=name)
        db = mesh.boundaries.boundaries["dirichlet"]
        pts = mesh.nodes[db.node_indices]
        if len(pts):
            ctx.close(db.node_condition, value_d(pts), "Dirichlet values at nodes", 1e-12, case=name)
        for key, pred, value in (("left", pa, value_a), ("piezo_1", pb, value_b)):
            want = {f for f in ref.facets if pred(ref.midpoint(f))}
            b = mesh.boundaries.boundaries.get(key)
            if not want:
                ctx.check(b is None or b.node_count == 0, f"{key}: facets without any expected", case=name)
                continue
            if b is None:
                ctx.fail(f"named boundary {key} missing", case=name)
                continue
            f = meshref.facet_keys(mesh.nodes, b.surfaces)
            ctx.check(len(f) == len(want) and set(f) == want, f"facets of {key}", case=name)
            wn = set().union(*want)
            p = meshref.keys(mesh.nodes[b.node_indices])
            ctx.check(len(p) == len(wn) and set(p) == wn and b.node_count == len(wn), f"nodes of {key}", case=name)
            ctx.close(
                b.node_condition, value(mesh.nodes[b.node_indices]), f"values at nodes of {key}", 1e-12, case=name
            )
        ctx.state((sorted(ref.points), sorted(sorted(x) for x in c), sorted(sorted(x) for x in d)))
        ctx.outcome((len(c), len(n), len(d)))
        ctx.observe(mesh.boundary_surfaces)
