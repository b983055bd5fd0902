"""Independent P1 finite element reference (any dimension), written from the weak forms.

Vectors use conmech's public layout: component-major, i.e. [x of all nodes, y of all nodes, ...].
"""
import itertools
import math

import numpy as np


def simplex(points):
    """(volume, gradients of the barycentric coordinates) of one simplex."""
    points = np.asarray(points, dtype=float)
    d = points.shape[1]
    m = np.hstack((np.ones((d + 1, 1)), points))
    inv = np.linalg.inv(m)  # column i: coefficients of phi_i
    vol = abs(np.linalg.det(m)) / math.factorial(d)
    return vol, inv[1:, :].T


class RefFem:
    def __init__(self, nodes, elements, density=None):
        self.nodes = np.asarray(nodes, dtype=float)
        self.elements = np.asarray(elements)
        self.n, self.d = self.nodes.shape
        n, d = self.n, self.d
        self.volumes = np.zeros(len(self.elements))
        self.mass = np.zeros((n, n))
        self.lump = np.zeros((n, n))
        self.v = np.zeros((d, n, n))  # int phi_i d_k phi_j
        self.w = np.zeros((d, d, n, n))  # int d_k phi_i d_l phi_j (density weighted)
        for e, el in enumerate(self.elements):
            vol, g = simplex(self.nodes[el])
            self.volumes[e] = vol
            rho = 1.0 if density is None else density[e]
            for a, i in enumerate(el):
                for b, j in enumerate(el):
                    self.mass[i, j] += vol * (2.0 if a == b else 1.0) / ((d + 1) * (d + 2))
                    if a != b:
                        self.lump[i, j] += vol / ((d + 1) * d)
                    for k in range(d):
                        self.v[k, i, j] += vol / (d + 1) * g[b, k]
                        for l in range(d):
                            self.w[k, l, i, j] += rho * vol * g[a, k] * g[b, l]

    # operators -----------------------------------------------------------------------------
    def block(self, rows):
        return np.block(rows)

    def vector_mass(self, density=1.0):
        return density * np.kron(np.eye(self.d), self.mass)

    def isotropic(self, mu, lam):
        d, w = self.d, self.w
        tr = sum(w[k, k] for k in range(d))
        return np.block(
            [
                [lam * w[a, b] + mu * w[b, a] + (mu * tr if a == b else 0) for b in range(d)]
                for a in range(d)
            ]
        )

    def laplace(self, c=1.0):
        return c * c * sum(self.w[k, k] for k in range(self.d))

    def second_order(self, coeff):
        return sum(
            coeff[k][l] * self.w[k, l] for k, l in itertools.product(range(self.d), repeat=2)
        )

    def expansion(self, coeff):
        return np.hstack(
            [sum(coeff[a][k] * self.v[k] for k in range(self.d)) for a in range(self.d)]
        )

    def piezo(self, coeff):
        return np.hstack(
            [
                sum(
                    coeff[a][k][l] * self.w[k, l]
                    for k, l in itertools.product(range(self.d), repeat=2)
                )
                for a in range(self.d)
            ]
        )

    def relaxation(self, coeff):
        d, w = self.d, self.w
        return np.block(
            [
                [
                    sum(coeff[a][k][k] * w[k, k] for k in range(d))
                    if a == b
                    else sum(
                        coeff[a][k][l] * w[k, l]
                        for k, l in itertools.product(range(d), repeat=2)
                        if k != l
                    )
                    for b in range(d)
                ]
                for a in range(d)
            ]
        )

    # loads ---------------------------------------------------------------------------------
    def facet_measure(self, facet):
        p = self.nodes[list(facet)]
        if self.d == 2:
            return float(np.linalg.norm(p[1] - p[0]))
        return 0.5 * float(np.linalg.norm(np.cross(p[1] - p[0], p[2] - p[0])))

    def boundary_facets(self):
        """{sorted facet: opposite node} of all facets that belong to exactly one element."""
        seen = {}
        for el in self.elements:
            for a in range(len(el)):
                f = tuple(sorted(int(x) for b, x in enumerate(el) if b != a))
                seen.setdefault(f, []).append(int(el[a]))
        return {f: o[0] for f, o in seen.items() if len(o) == 1}

    def load(self, inner, outer, neumann_facets):
        """Nodal loads (n x m): inner/outer are callables node -> vector."""
        fi = np.array([np.atleast_1d(inner(x)) for x in self.nodes], dtype=float)
        fo = np.array([np.atleast_1d(outer(x)) for x in self.nodes], dtype=float)
        share = np.zeros((self.n, 1))
        for f in neumann_facets:
            m = self.facet_measure(f) / self.d
            for i in f:
                share[i] += m
        return self.lump @ fi + share * fo

    def stack(self, field):
        return np.asarray(field).T.reshape(-1)


def solve_dirichlet(lhs, rhs, fixed, values):
    """Solve lhs x = rhs on free dofs with x[fixed] = values."""
    n = len(rhs)
    fixed = np.asarray(fixed, dtype=int)
    free = np.setdiff1d(np.arange(n), fixed)
    x = np.zeros(n)
    x[fixed] = values
    if len(free):
        x[free] = np.linalg.solve(lhs[np.ix_(free, free)], rhs[free] - lhs[np.ix_(free, fixed)] @ x[fixed])
    return x
