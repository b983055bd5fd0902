"""C02: node classes, their order and their counts."""
import itertools

import numpy as np

from mc import boundary_space as bs
from mc import meshref

MODES = ["py", "jit"]
warmup = bs.warmup
SIZES = [1 / 3, 0.1, 1e-3 / 7, 1000 / 3]
OPS = {"==": np.equal, "<=": np.less_equal, ">=": np.greater_equal, "<": np.less, ">": np.greater}


def bounds(tier):
    return dict(
        bs.bounds(tier),
        indicators="also every comparison (==, <, >, <=, >=) of a coordinate with that of a node, which no rounding may "
        "disturb, on 4 meshes of 4 sizes whose coordinates are not dyadic",
    )


def jobs(tier, mode):
    yield from bs.jobs(tier, mode)
    if mode == "py":
        for mesh in ["square4", "lshape", "dart", "tet2"]:
            for size in SIZES:
                yield {"kind": "pivot", "mesh": mesh, "size": size}


def pivots(job):
    nodes, elements = meshref.get_mesh(job["mesh"])
    nodes = job["size"] * nodes - job["size"] / 7
    ref = meshref.MeshRef(nodes, elements)
    for axis, (op, f) in itertools.product(range(nodes.shape[1]), OPS.items()):
        for value in np.unique(nodes[:, axis]):
            p = lambda x, f=f, axis=axis, value=value: bool(f(x[axis], value))
            other = lambda x: bool(x[1 - axis] == nodes[0, 1 - axis])
            name = f"{job['mesh']}*{job['size']}/x{axis} {op} {value}"
            yield name + "/contact", nodes, elements, ref, p, lambda x: False
            yield name + "/dirichlet", nodes, elements, ref, other, p


def run(job, ctx):
    ctx.sample(job)
    for name, nodes, elements, ref, contact, dirichlet in pivots(job) if job["kind"] == "pivot" else bs.cases(job):
        mesh = bs.build(nodes, elements, contact, dirichlet)
        c, n, i, d = ref.classify(contact, dirichlet)
        ctx.step(12)
        ctx.trace()
        got = np.array(meshref.keys(mesh.nodes), dtype=object)
        total = len(got)
        pick = lambda idx: [tuple(p) for p in np.array(got)[idx]]

        def same(idx, want, what):
            p = pick(idx)
            ctx.check(
                len(p) == len(want) and set(p) == set(want),
                f"{what}: got {sorted(p)}, expected {sorted(want)}",
                case=name,
            )

        same(mesh.contact_indices, c, "contact nodes")
        same(mesh.neumann_indices, n, "Neumann nodes")
        same(mesh.dirichlet_indices, d, "Dirichlet nodes")
        same(mesh.independent_indices, c | n | i, "independent nodes")
        same(mesh.free_indices, n | i, "free nodes")
        same(slice(len(c) + len(n), total - len(d)), i, "interior nodes between Neumann and Dirichlet")
        same(mesh.boundary_indices, c | n | d, "boundary nodes")
        ctx.check(
            sorted(meshref.keys(mesh.initial_boundary_nodes)) == sorted(c | n | d),
            "initial_boundary_nodes",
            case=name,
        )
        counts = [
            mesh.contact_nodes_count,
            mesh.neumann_nodes_count,
            mesh.dirichlet_nodes_count,
            mesh.independent_nodes_count,
            mesh.free_nodes_count,
            mesh.boundary_nodes_count,
            mesh.inner_nodes_count,
            mesh.nodes_count,
        ]
        want = [
            len(c),
            len(n),
            len(d),
            total - len(d),
            len(n) + len(i),
            len(c) + len(n) + len(d),
            len(i),
            len(ref.points),
        ]
        ctx.check(counts == want, f"counts {counts}, expected {want}", case=name)
        for key in ("contact", "neumann", "dirichlet"):
            b = mesh.boundaries.boundaries[key]
            same(b.node_indices, {"contact": c, "neumann": n, "dirichlet": d}[key], f"boundary {key}")
            ctx.check(b.node_count == len(pick(b.node_indices)), f"node_count of {key}", case=name)
        ctx.state((sorted(ref.points), sorted(c), sorted(d)))
        ctx.outcome(want)
        ctx.observe(mesh.nodes)
