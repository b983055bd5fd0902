"""Reference view of a mesh: everything is expressed through point coordinates, never node numbers."""
import itertools

import numpy as np

R = 9


def key(point):
    return tuple(float(round(float(c), R)) + 0.0 for c in point)


def keys(points):
    return [key(p) for p in np.asarray(points, dtype=float)]


class MeshRef:
    """What a mesh made of the given arrays must look like."""

    def __init__(self, nodes, elements, position=None):
        nodes = np.asarray(nodes, dtype=float)
        elements = np.asarray(elements)
        if position is not None:
            nodes = nodes - np.min(nodes, axis=0) + np.asarray(position, dtype=float)
        self.points = {key(nodes[i]): nodes[i] for i in np.unique(elements)}
        self.elements = [frozenset(key(nodes[i]) for i in el) for el in elements]
        self.dim = nodes.shape[1]
        count, opp = {}, {}
        for el in self.elements:
            for p in el:
                f = el - {p}
                count[f] = count.get(f, 0) + 1
                opp[f] = p
        self.facets = {f: opp[f] for f, c in count.items() if c == 1}
        self.boundary_points = set().union(*self.facets) if self.facets else set()
        self.edges = {
            frozenset(pair) for el in self.elements for pair in itertools.combinations(sorted(el), 2)
        }

    def midpoint(self, facet):
        # the same floating point mean for every vertex order on dyadic coordinates
        return np.mean([self.points[p] for p in sorted(facet)], axis=0)

    def outward(self, facet):
        pts = [self.points[p] for p in sorted(facet)]
        inner = self.points[self.facets[facet]]
        if self.dim == 2:
            t = pts[1] - pts[0]
            n = np.array([t[1], -t[0]])
        else:
            n = np.cross(pts[1] - pts[0], pts[2] - pts[0])
        n = n / np.linalg.norm(n)
        return -n if np.dot(inner - pts[0], n) > 0 else n

    def measure(self, facet):
        pts = [self.points[p] for p in sorted(facet)]
        if self.dim == 2:
            return float(np.linalg.norm(pts[1] - pts[0]))
        return 0.5 * float(np.linalg.norm(np.cross(pts[1] - pts[0], pts[2] - pts[0])))

    def classify(self, contact, dirichlet):
        """(contact, neumann, interior, dirichlet) sets of point keys."""
        d = {p for p in self.boundary_points if dirichlet(self.points[p])}
        c = {p for p in self.boundary_points if contact(self.points[p])} - d
        n = self.boundary_points - d - c
        return c, n, set(self.points) - self.boundary_points, d

    def classify_facets(self, contact, dirichlet):
        d = {f for f in self.facets if dirichlet(self.midpoint(f))}
        c = {f for f in self.facets if contact(self.midpoint(f))} - d
        return c, set(self.facets) - d - c, d


def facet_keys(nodes, facets):
    return [frozenset(key(nodes[i]) for i in f) for f in np.asarray(facets)]


# Families of meshes and predicates ------------------------------------------------------------


def sub_mesh_2d(mask):
    """Subset (bit mask 1..255) of the 8 triangles of a 2x2 grid; unused nodes stay as orphans."""
    from mc import meshes

    nodes, elements = meshes.grid([0, 1.0, 2.0], [0, 1.0, 3.0], "alt")
    return nodes, elements[[b for b in range(8) if mask >> b & 1]]


def sub_mesh_3d(mask):
    """Subset (bit mask 1..63) of the 6 Kuhn tetrahedra of a box."""
    from mc import meshes

    nodes, elements = meshes.kuhn_cubes([0, 1.0], [0, 2.0], [0, 0.5])
    return nodes, elements[[b for b in range(6) if mask >> b & 1]]


PREDICATES = {
    "none": lambda x: False,
    "all": lambda x: True,
    "x0": lambda x: x[0] == 0,
    "y0": lambda x: x[1] == 0,
    "last0": lambda x: x[-1] == 0,
    "x_le_1": lambda x: x[0] <= 1.0,
    "y_gt_half": lambda x: x[1] > 0.5,
    "diag": lambda x: x[0] > x[1],
}


# more nodes than a byte can count, and a long row of contact facets
LARGE = {
    "large": lambda m: m.grid(np.arange(17) / 8, np.arange(18) / 8, "alt"),
    "large3": lambda m: m.kuhn_cubes(np.arange(7) / 4, np.arange(7) / 4, np.arange(6) / 4),
    "row": lambda m: m.grid(np.arange(13) / 4, [0, 1.0], "alt"),
}


def get_mesh(spec):
    """spec: name in a catalogue, 's2:MASK', 's3:MASK' or 'cross:SX:SY:H'."""
    from mc import meshes

    if spec.startswith("s2:"):
        return sub_mesh_2d(int(spec[3:]))
    if spec.startswith("s3:"):
        return sub_mesh_3d(int(spec[3:]))
    if spec in LARGE:
        return LARGE[spec](meshes)
    c = meshes.catalogue_2d()
    if spec in c:
        return c[spec]
    return meshes.catalogue_3d()[spec]


def dim_of(spec):
    return get_mesh(spec)[0].shape[1]


def labelled_predicates(ref, code):
    """Arbitrary predicates given by a base-4 code over boundary points and facet midpoints.

    digit: 0 none, 1 contact, 2 dirichlet, 3 both.  Returns (contact, dirichlet).
    """
    spots = sorted(ref.boundary_points) + sorted(key(ref.midpoint(f)) for f in ref.facets)
    table = {}
    for s in spots:
        table[s] = code % 4
        code //= 4
    contact = lambda x: bool(table.get(key(x), 0) & 1)
    dirichlet = lambda x: bool(table.get(key(x), 0) & 2)
    return contact, dirichlet, 4 ** len(spots)
