"""Catalogue of small meshes given by explicit arrays, and a description that feeds them to conmech.

Every entry is (nodes, elements); nodes are floats that are exactly representable, so that predicates
such as ``x[1] == 0`` are decided without rounding.
"""
import itertools

import numpy as np


def array_description(nodes, elements, initial_position=None):
    """A MeshDescription whose build() returns private copies of the given arrays."""
    from conmech.properties.mesh_description import MeshDescription
    from conmech.mesh.zoo.raw_mesh import RawMesh

    nodes = np.array(nodes, dtype=np.float64)
    elements = np.array(elements, dtype=np.int64)

    class ArrayMeshDescription(MeshDescription):
        def build(self):
            return RawMesh(nodes=nodes.copy(), elements=elements.copy())

    return ArrayMeshDescription(
        initial_position=None if initial_position is None else np.array(initial_position, dtype=float)
    )


def grid(xs, ys, pattern="diag", keep=None):
    """Structured triangulation of a (sub)grid of cells; pattern: diag, anti, cross, alt."""
    nx, ny = len(xs) - 1, len(ys) - 1
    nodes = [(x, y) for y in ys for x in xs]
    idx = lambda i, j: j * (nx + 1) + i
    elements = []
    for j in range(ny):
        for i in range(nx):
            if keep is not None and not keep(i, j):
                continue
            a, b, c, d = idx(i, j), idx(i + 1, j), idx(i + 1, j + 1), idx(i, j + 1)
            p = pattern if pattern != "alt" else ("diag" if (i + j) % 2 == 0 else "anti")
            if p == "diag":
                elements += [(a, b, c), (a, c, d)]
            elif p == "anti":
                elements += [(a, b, d), (b, c, d)]
            else:
                m = len(nodes)
                nodes.append(((xs[i] + xs[i + 1]) / 2, (ys[j] + ys[j + 1]) / 2))
                elements += [(a, b, m), (b, c, m), (c, d, m), (d, a, m)]
    return np.array(nodes, dtype=float), np.array(elements, dtype=np.int64)


def compress(nodes, elements):
    used = np.unique(elements)
    new = -np.ones(len(nodes), dtype=int)
    new[used] = np.arange(len(used))
    return nodes[used], new[elements]


def kuhn_cubes(xs, ys, zs, keep=None):
    """Conforming (Kuhn) tetrahedralisation of a (sub)grid of boxes."""
    nx, ny, nz = len(xs), len(ys), len(zs)
    nodes = [(x, y, z) for z in zs for y in ys for x in xs]
    idx = lambda i, j, k: (k * ny + j) * nx + i
    elements = []
    for k in range(nz - 1):
        for j in range(ny - 1):
            for i in range(nx - 1):
                if keep is not None and not keep(i, j, k):
                    continue
                for perm in itertools.permutations(range(3)):
                    p = [i, j, k]
                    tet = [idx(*p)]
                    for ax in perm:
                        p[ax] += 1
                        tet.append(idx(*p))
                    elements.append(tet)
    return np.array(nodes, dtype=float), np.array(elements, dtype=np.int64)


def catalogue_2d():
    c = {}
    c["tri"] = (np.array([(0, 0), (1, 0), (0, 1.0)]), np.array([(0, 1, 2)]))
    c["tri_obtuse"] = (np.array([(0, 0), (4.0, 0), (-1.0, 0.5)]), np.array([(0, 1, 2)]))
    c["square2"] = grid([0, 1.0], [0, 1.0])
    c["square4"] = grid([0, 1.0], [0, 1.0], "cross")
    c["strip3"] = grid([0, 1.0, 2.0, 3.0], [0, 1.0], "alt")
    c["grid22"] = grid([0, 0.5, 1.0], [0, 0.5, 1.0], "cross")
    c["grid23"] = grid([0, 1.0, 2.5], [0, 0.5, 1.0, 2.0], "alt")
    c["lshape"] = compress(*grid([0, 1.0, 2.0], [0, 1.0, 2.0], "diag", lambda i, j: (i, j) != (1, 1)))
    c["ushape"] = compress(
        *grid([0, 1.0, 2.0, 3.0], [0, 1.0, 2.0], "anti", lambda i, j: (i, j) != (1, 1))
    )
    c["ring"] = compress(
        *grid([0, 1.0, 2.0, 3.0], [0, 1.0, 2.0, 3.0], "diag", lambda i, j: (i, j) != (1, 1))
    )
    # thin concave dart: the centroid of the whole body lies outside the left arm's half planes
    c["dart"] = (
        np.array([(0, 0), (2.0, 1.0), (0, 2.0), (0.5, 1.0)]),
        np.array([(0, 1, 3), (1, 2, 3)]),
    )
    # two components
    n1, e1 = grid([0, 1.0], [0, 1.0])
    n2, e2 = grid([3.0, 4.0], [0, 2.0], "anti")
    c["two"] = (np.vstack((n1, n2)), np.vstack((e1, e2 + len(n1))))
    return c


def catalogue_3d():
    c = {}
    c["tet"] = (
        np.array([(0, 0, 0), (1.0, 0, 0), (0, 1.0, 0), (0, 0, 1.0)]),
        np.array([(0, 1, 2, 3)]),
    )
    c["tet2"] = (
        np.array([(0, 0, 0), (1.0, 0, 0), (0, 1.0, 0), (0, 0, 1.0), (1.0, 1.0, 1.0)]),
        np.array([(0, 1, 2, 3), (1, 2, 3, 4)]),
    )
    c["box1"] = kuhn_cubes([0, 1.0], [0, 2.0], [0, 0.5])
    c["box2"] = kuhn_cubes([0, 1.0, 1.5], [0, 1.0], [0, 1.0])
    c["box8"] = kuhn_cubes([0, 0.5, 1.0], [0, 0.5, 1.0], [0, 0.5, 1.0])
    c["lshape3"] = compress(
        *kuhn_cubes([0, 1.0, 2.0], [0, 1.0, 2.0], [0, 1.0], lambda i, j, k: (i, j) != (1, 1))
    )
    return c


def add_orphans(nodes, elements, where):
    """Insert unreferenced nodes at the given old positions (before index w)."""
    nodes = [tuple(n) for n in nodes]
    elements = np.array(elements)
    dim = len(nodes[0])
    for k, w in enumerate(sorted(where, reverse=True)):
        nodes.insert(w, tuple([77.0 + k] * dim))
        elements = np.where(elements >= w, elements + 1, elements)
    return np.array(nodes, dtype=float), elements


def relabel(nodes, elements, perm):
    """Node i gets number perm[i]."""
    perm = np.asarray(perm)
    out = np.empty_like(nodes)
    out[perm] = nodes
    return out, perm[elements]
