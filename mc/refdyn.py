"""Reference time stepping and contact minimisation on top of RefFem."""
import numpy as np

from mc import meshref, reffem

SCALAR = ("wave", "poisson")


class RefModel:
    def __init__(self, kind, mesh, ref, contact, dirichlet, value, p, inner, outer, law=None, law2=None):
        """mesh: conmech mesh (only its numbering is used); ref: MeshRef; p: dict of material parameters."""
        self.kind, self.p, self.law, self.law2 = kind, p, law, law2
        self.fem = fem = reffem.RefFem(mesh.nodes, mesh.elements)
        self.n, self.d = fem.n, fem.d
        self.width = 1 if kind in SCALAR else fem.d
        idx = {k: i for i, k in enumerate(meshref.keys(mesh.nodes))}
        self.idx = idx
        cf, nf, _ = ref.classify_facets(contact, dirichlet)
        self.contact = [([idx[q] for q in sorted(f)], ref.outward(f), ref.measure(f)) for f in cf]
        self.neumann = [[idx[q] for q in f] for f in nf]
        self.dnodes = np.array(sorted(idx[q] for q in ref.boundary_points if dirichlet(ref.points[q])), dtype=int)
        self.dvalues = (
            np.zeros(len(self.dnodes)) if value is None or not len(self.dnodes) else value(fem.nodes[self.dnodes])
        )
        self.fixed = np.concatenate([self.dnodes + k * self.n for k in range(self.width)])
        self.fixed_values = np.tile(self.dvalues, self.width)
        self.inner, self.outer = inner, outer
        self.M = fem.vector_mass(p.get("rho", 1.0)) if self.width > 1 else fem.mass * p.get("rho", 1.0)
        if self.width > 1:
            self.A = fem.isotropic(p["mu"], p["la"])
            self.B = fem.isotropic(p["th"], p["ze"]) if "th" in p else None
        else:
            self.A = fem.laplace(p.get("c", 1.0))

    def force(self, t):
        w = self.width
        return self.fem.stack(
            self.fem.load(lambda x: self.inner(x, t)[:w], lambda x: self.outer(x, t)[:w], self.neumann)
        )

    # contact ---------------------------------------------------------------------------------
    def contact_terms(self, v, u, dt, law, width):
        """Gradient and Hessian at v of the contact functional; u: displacement (component-major, width comps)."""
        n = self.n
        g, h = np.zeros(width * n), np.zeros((width * n, width * n))
        if law is None:
            return g, h
        if getattr(law, "interior", False):
            # half of the law's potential, weighted by the (lumped) mass of every node
            weight = 0.5 * self.fem.mass.sum(axis=0)
            for i in range(n):
                r, dr = law.normal(v[i], u[i], dt)
                g[i] += weight[i] * r
                h[i, i] += weight[i] * dr
            return g, h
        for nodes, normal, length in self.contact:
            m = len(nodes)
            pts = [np.full(m, 1.0 / m)] + [np.eye(m)[k] for k in range(m)]
            wgt = length / len(pts)
            um = np.array([np.mean(u[np.array(nodes) + k * n]) for k in range(width)])
            for shape in pts:
                vm = np.array([shape @ v[np.array(nodes) + k * n] for k in range(width)])
                if width == 1:
                    blocks_n = np.ones(1)
                    vn, un = vm[0], um[0]
                else:
                    blocks_n = normal
                    vn, un = vm @ normal, um @ normal
                r, dr = law.normal(vn, un, dt)
                vec = r * blocks_n
                mat = dr * np.outer(blocks_n, blocks_n)
                if getattr(law, "joint", None) and width > 1:
                    rn, rt, hnn, hnt, htt = law.joint(vn, vm - vn * normal, un, um - un * normal, dt)
                    vec = rn * normal + rt
                    mat = hnn * np.outer(normal, normal) + np.outer(normal, hnt) + np.outer(hnt, normal)
                    mat = mat + htt * (np.eye(width) - np.outer(normal, normal))
                elif law.tangential is not None and width > 1:
                    rt, kt = law.tangential(vm - vn * normal, um - un * normal, dt)
                    vec = vec + rt - (rt @ normal) * normal
                    mat = mat + kt * (np.eye(width) - np.outer(normal, normal))
                for a in range(m):
                    for i in range(width):
                        g[nodes[a] + i * n] += wgt * shape[a] * vec[i]
                        for b in range(m):
                            for j in range(width):
                                h[nodes[a] + i * n, nodes[b] + j * n] += wgt * shape[a] * shape[b] * mat[i, j]
        return g, h

    def minimise(self, lhs, rhs, u, dt, law=None, width=None):
        """argmin 1/2 x lhs x - rhs x + contact(x), x = prescribed on Dirichlet dofs."""
        width = self.width if width is None else width
        fixed = np.concatenate([self.dnodes + k * self.n for k in range(width)])
        x = reffem.solve_dirichlet(lhs, rhs, fixed, np.tile(self.dvalues, width))
        if law is None or not (self.contact or getattr(law, "interior", False)):
            return x
        free = np.setdiff1d(np.arange(len(x)), fixed)
        for _ in range(200):
            g, h = self.contact_terms(x, u, dt, law, width)
            res = (lhs @ x - rhs + g)[free]
            if np.max(np.abs(res), initial=0.0) < 1e-12 * max(1.0, np.max(np.abs(rhs))):
                return x
            step = np.linalg.solve((lhs + h)[np.ix_(free, free)], -res)
            # damped semismooth Newton: keep the residual decreasing
            a = 1.0
            base = np.linalg.norm(res)
            while a > 1e-4:
                y = x.copy()
                y[free] += a * step
                r2 = (lhs @ y - rhs + self.contact_terms(y, u, dt, law, width)[0])[free]
                if np.linalg.norm(r2) < base * (1 - 1e-4 * a) or np.linalg.norm(r2) < 1e-13:
                    break
                a /= 2
            x = y
        raise AssertionError("reference contact iteration did not converge")

    # steps -----------------------------------------------------------------------------------
    def system(self, u, v, b, t, dt):
        """(lhs, rhs, displacement seen by the contact law) of the step that starts at time t."""
        k = self.kind
        f = self.force(t)
        if k == "static":
            return self.A, f, u
        if k == "quasistatic":
            return self.B + dt * self.A, f - self.A @ u, u
        if k == "dynamic":
            return self.B + self.M / dt + dt * self.A, f - self.A @ u + self.M @ v / dt, u
        if k == "wave":
            n = self.n
            return self.M / dt + dt * self.A, f - self.A @ u[:n] + self.M @ v[:n] / dt, u[:n]
        if k == "relaxation":
            R = self.fem.relaxation(self.p["relax"](t))
            return self.A + dt * R, f - R @ b, u
        raise ValueError(k)

    def step(self, u, v, b, t, dt):
        """New (u, v, b), component-major."""
        lhs, rhs, seen = self.system(u, v, b, t, dt)
        x = self.minimise(lhs, rhs, seen, dt, self.law)
        if self.kind == "wave":
            x = np.concatenate((x, np.zeros(self.n)))
        if self.kind in ("static", "relaxation"):
            return x, v, b + dt * x
        return u + dt * x, x, b
