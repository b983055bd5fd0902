BUGS = []


def bug(**kw):
    BUGS.append(kw)


bug(
    id="c08-pieces-share-values",
    property="C08",
    needs="a named piezo boundary whose nodes are not numbered consecutively and a condition that varies along it",
    what_it_breaks="every piece of the boundary takes the values of its first piece",
    edits=[("conmech/mesh/boundaries.py", "                    condition_start = condition_stop\n", "")],
    demo="""
    from conmech.mesh.boundaries_description import BoundariesDescription  # noqa
    arrays = lib.grid([0, 1, 2, 3], [0, 1, 2])
    value = lambda x: x[:, 1] + 2 * x[:, 0] + 1
    bd = {"dirichlet": lambda x: x[0] == 0, "contact": lambda x: x[0] == 3 and x[1] > 1.2,
          "piezo_dirichlet_0": (lambda x: x[1] == 2 or x[0] == 3 or x[1] == 0, value)}
    s = lib.make_solver("piezo_q", arrays, bd, "schur", lib.potential_law(), lib.potential_law())
    state = lib.run(s, "piezo_q", 1)[-1]
    x = s.body.mesh.nodes
    on = (x[:, 1] == 2) | (x[:, 0] == 3) | (x[:, 1] == 0)
    lib.check(np.allclose(state.electric_potential[on], value(x[on])), state.electric_potential[on] - value(x[on]))
    """,
)

bug(
    id="c18-penetration-clipped",
    property="C18",
    needs="a body whose contact boundary stays above the foundation",
    what_it_breaks="the penetration of a body above the foundation is recorded as 0",
    edits=[("conmech/state/products/penetration.py", "            p = np.min(all_p)\n", "            p = min(np.min(all_p), 0.0)\n")],
    demo="""
    from conmech.state.products.penetration import Penetration
    from conmech.state.state import State
    nodes, elements = lib.grid([0, 1], [0.5, 1])
    s = lib.make_solver("static", (nodes, elements), {"contact": lambda x: x[1] == 0.5, "dirichlet": lambda x: x[0] == 7}, "direct")
    state = State(s.body)
    p = Penetration()
    state.inject_product(p)
    state.set_displacement(np.zeros(8), time=1.0)
    lib.check(p.data == {1.0: 0.5}, p.data)
    """,
)

bug(
    id="c18-intersection-from-zero",
    property="C18",
    needs="a body that does not stand on y = 0",
    what_it_breaks="the intersection line starts at 0 instead of the bottom of the body",
    edits=[("conmech/state/products/verticalintersection.py", "np.linspace(y_min, y_max, int((y_max - y_min) // step))", "np.linspace(0.0, y_max, int((y_max - y_min) // step))")],
    demo="""
    from conmech.state.products.verticalintersection import VerticalIntersection
    from conmech.state.state import State
    nodes, elements = lib.grid([0, 1, 2], [1, 2, 3])
    s = lib.make_solver("static", (nodes, elements), {"dirichlet": lambda x: x[0] == 0}, "direct")
    state = State(s.body)
    p = VerticalIntersection(1.0)
    state.inject_product(p)
    state.set_displacement(np.zeros(18), time=1.0)
    lib.check(abs(p.data[1.0][0][0] - 1) < 1e-12, p.data[1.0][0])
    """,
)

bug(
    id="c18-limit-points-step",
    property="C18",
    needs="a membrane that crosses the obstacle level twice within a coarse scan step (more than one crossing close together)",
    what_it_breaks="the line is scanned four times coarser, so close pairs of crossings are lost",
    edits=[("conmech/state/products/intersection_contact_limit_points.py", "        step = len(state.body.mesh.nodes) ** -1 / 2\n", "        step = 2 * len(state.body.mesh.nodes) ** -0.5\n")],
    demo="""
    from conmech.state.products.intersection_contact_limit_points import VerticalIntersectionContactLimitPoints as P
    from conmech.state.state import State
    ys = np.linspace(0, 1, 5)
    nodes, elements = lib.grid([0, 0.5, 1], ys)
    s = lib.make_solver("wave", (nodes, elements), {"dirichlet": lambda x: x[0] == 7}, "schur", lib.potential_law())
    state = State(s.body)
    p = P(0.5, 0.5)
    state.inject_product(p)
    x = s.body.mesh.nodes
    u = np.where(x[:, 1] == 0.25, 1.0, 0.0)
    state.set_displacement(np.concatenate((u, 0 * u)), time=1.0)
    got = p.data[1.0]
    lib.check(len(got) == 2 and np.allclose(got, (0.125, 0.375)), got)
    """,
)

bug(
    id="c11-displacement-of-first-node",
    property="C11",
    needs="a contact law that depends on the current displacement, and a facet whose ends are displaced differently",
    what_it_breaks="the displacement passed to the law is the one of the first node of the facet instead of the mean",
    edits=[("conmech/solvers/solver_methods.py", "                result[i] += vector[i * offset + node] / len(edge)\n            else:\n                # old values\n                result[i] += full_vector[i * offset_full + node] / len(edge)\n    return result\n\n\n@numba.njit(inline=\"always\")\ndef get_nodes",
            "                result[i] += vector[i * offset + edge[0]] / len(edge)\n            else:\n                # old values\n                result[i] += full_vector[i * offset_full + edge[0]] / len(edge)\n    return result\n\n\n@numba.njit(inline=\"always\")\ndef get_nodes")],
    demo="""
    from conmech.dynamics.contact.contact_law import PotentialOfContactLaw

    class Law(PotentialOfContactLaw):
        @staticmethod
        def potential_normal_direction(var_nu, static_displacement_nu, dt):
            return static_displacement_nu * var_nu

    nodes, elements = lib.grid([0, 1], [0, 1])
    u0 = lambda x: np.column_stack((0 * x[:, 0], -x[:, 0] * (x[:, 1] == 0)))
    got = []
    # the same body with nodes numbered from the first to the last and from the last to the first
    for arrays in ((nodes, elements), (nodes[::-1], len(nodes) - 1 - elements)):
        s = lib.make_solver("quasistatic", arrays, {"contact": lambda x: x[1] == 0, "dirichlet": lambda x: x[1] == 1}, "schur", Law())
        state = lib.run(s, "quasistatic", 1, u0=u0)[-1]
        x = s.body.mesh.nodes
        got.append(state.velocity[np.lexsort((x[:, 0], x[:, 1]))][:, 1])
    lib.check(np.allclose(got[0], got[1], atol=1e-6), got)
    """,
)

bug(
    id="c22-elastic-step-capped",
    property="C22",
    needs="a time step longer than 1",
    what_it_breaks="long steps are only partly implicit in the elasticity, so the energy grows",
    edits=[("conmech/dynamics/statement.py", "            + (1 / var.time_step) * self.body.dynamics.acceleration_operator\n            + self.body.dynamics.elasticity * var.time_step\n",
            "            + (1 / var.time_step) * self.body.dynamics.acceleration_operator\n            + self.body.dynamics.elasticity * min(var.time_step, 1.0)\n")],
    demo="""
    arrays = lib.grid([0, 1, 2], [0, 1])
    s = lib.make_solver("dynamic", arrays, {"dirichlet": lambda x: x[0] == 0}, "schur", lib.potential_law(), dt=5.0, th=0.01, ze=0.01)
    states = lib.run(s, "dynamic", 4, output_step=[1, 2, 3, 4], u0=lambda x: 0.1 * x)
    K, M = s.body.dynamics.elasticity.data, s.body.dynamics.acceleration_operator.data
    e = []
    for st in states:
        u, v = st.displacement.T.ravel(), st.velocity.T.ravel()
        e.append(0.5 * u @ K @ u + 0.5 * v @ M @ v)
    x = s.body.mesh.nodes
    u = (0.1 * x).T.ravel()
    e = [0.5 * u @ K @ u] + e
    lib.check(all(b <= a + 1e-9 for a, b in zip(e, e[1:])), e)
    """,
)

bug(
    id="c22-wave-no-elastic-term",
    property="C22",
    needs="a membrane moved over a long step (the elastic force of the step itself is not negligible)",
    what_it_breaks="the wave equation is integrated half explicitly: energy grows for long steps",
    edits=[("conmech/dynamics/statement.py", "            + self.body.dynamics.poisson_operator * var.time_step\n", "            + self.body.dynamics.poisson_operator * var.time_step * (1.0 if var.time_step <= 0.5 else 0.25)\n")],
    demo="""
    arrays = lib.grid([0, 1, 2, 3], [0, 1, 2, 3])
    edge = lambda x: x[0] in (0, 3) or x[1] in (0, 3)
    s = lib.make_solver("wave", arrays, {"dirichlet": edge}, "schur", lib.potential_law(), dt=2.0)
    u0 = lambda x: np.column_stack((((x[:, 0] == 1) & (x[:, 1] == 1)) * 1.0, 0 * x[:, 0]))
    states = lib.run(s, "wave", 6, output_step=[1, 2, 3, 4, 5, 6], u0=u0)
    n = s.body.mesh.nodes_count
    K, M = s.body.dynamics.poisson_operator.data, s.body.dynamics.acceleration_operator.data[:n, :n]
    u = u0(s.body.mesh.nodes)[:, 0]
    e = [0.5 * u @ K @ u]
    for st in states:
        u, v = st.displacement[:, 0], st.velocity[:, 0]
        e.append(0.5 * u @ K @ u + 0.5 * v @ M @ v)
    lib.check(all(b <= a + 1e-9 for a, b in zip(e, e[1:])), e)
    """,
)

bug(
    id="c26-loose-other-minimisers",
    property="C26",
    needs="a minimiser other than the default one",
    what_it_breaks="minimisers other than BFGS stop at a tolerance of 1e-2",
    edits=[("conmech/solvers/optimization/optimization.py", "        tol = kwargs.get(\"tol\", 1e-12)\n        args = (", "        tol = kwargs.get(\"tol\", 1e-12 if method == \"BFGS\" else 1e-2)\n        args = (")],
    demo="""
    arrays = lib.grid([0, 1, 2, 3, 4], [0, 1, 2])
    got = []
    for method in ("BFGS", "L-BFGS-B"):
        s = lib.make_solver("static", arrays, {"contact": lambda x: x[1] == 0, "dirichlet": lambda x: x[0] == 0}, "schur",
                            lib.potential_law(3.0), inner=lambda x, t: (0.0, -1.0))
        got.append(lib.run(s, "static", method=method)[0].displacement)
    lib.check(np.allclose(got[0], got[1], atol=1e-4), np.abs(got[0] - got[1]).max())
    """,
)

bug(
    id="c26-minimiser-remembered",
    property="C26",
    needs="two solves of one solver with different minimisers, the first of which does not finish",
    what_it_breaks="the number of iterations of an earlier call limits all later calls",
    edits=[("conmech/solvers/optimization/optimization.py", "        maxiter = kwargs.get(\"maxiter\", int(len(initial_guess) * 1e3))\n        tol = kwargs",
            "        maxiter = kwargs.get(\"maxiter\", getattr(self, \"maxiter\", int(len(initial_guess) * 1e3)))\n        self.maxiter = maxiter\n        tol = kwargs")],
    demo="""
    arrays = lib.grid([0, 1, 2], [0, 1])
    got = []
    for first in (None, 1):
        s = lib.make_solver("static", arrays, {"contact": lambda x: x[1] == 0, "dirichlet": lambda x: x[0] == 0}, "schur",
                            lib.potential_law(3.0), inner=lambda x, t: (0.0, -1.0))
        if first:
            lib.run(s, "static", maxiter=first)
        got.append(lib.run(s, "static")[0].displacement)
    lib.check(np.allclose(got[0], got[1], atol=1e-6), np.abs(got[0] - got[1]).max())
    """,
)

bug(
    id="c13-empty-segment",
    property="C13",
    needs="an output schedule of a membrane simulation that contains step 0",
    what_it_breaks="segments without steps return no state",
    edits=[("conmech/simulations/problem_solver.py", "        for n in output_step:\n            self.run(state, n_steps=n, **kwargs)\n            results.append(state.copy())",
            "        for n in filter(None, output_step):\n            self.run(state, n_steps=n, **kwargs)\n            results.append(state.copy())")],
    demo="""
    s = lib.make_solver("wave", lib.grid([0, 1, 2], [0, 1]), {"dirichlet": lambda x: x[0] == 0}, "schur", lib.potential_law())
    got = lib.run(s, "wave", 2, output_step=[0, 2])
    lib.check([g.time for g in got] == [0, 0.5], [g.time for g in got])
    """,
)

bug(
    id="c15-second-solver-vectors",
    property="C15",
    needs="a second run of a thermal solver from other initial data",
    what_it_breaks="the temperature at the beginning of a run is added to the one the last run ended with",
    edits=[("conmech/simulations/problem_solver.py", "        self.second_step_solver.t_vector[:] = state.temperature.T.ravel().copy()\n\n        self.step_solver.iterate()",
            "        self.second_step_solver.t_vector = self.second_step_solver.t_vector + state.temperature.T.ravel()\n\n        self.step_solver.iterate()"),
           ("conmech/simulations/problem_solver.py", "        old_t_vector = self.step_solver.t_vector.copy()\n", "        old_t_vector = self.second_step_solver.t_vector.copy()\n"),
           ("conmech/simulations/problem_solver.py", "        self.second_step_solver.t_vector = solution_t\n", "        self.second_step_solver.t_vector = solution_t.copy()\n")],
    demo="""
    arrays = lib.grid([0, 1, 2], [0, 1])
    make = lambda: lib.make_solver("temperature", arrays, {"dirichlet": lambda x: x[0] == 0}, "schur", lib.potential_law(), lib.potential_law())
    used, new = make(), make()
    lib.run(used, "temperature", 2, s0=lambda x: x[:, 0] * 1.0)
    a, b = (lib.run(s, "temperature", 2)[-1].temperature for s in (used, new))
    lib.check(np.allclose(a, b, atol=1e-9), np.abs(a - b).max())
    """,
)

bug(
    id="c17-torn-file-tail",
    property="C17",
    needs="a file that was torn while it was written",
    what_it_breaks="loading a torn file returns an empty state instead of raising",
    edits=[("conmech/state/state.py", "        with open(path, \"rb\") as file:\n            return pickle.load(file)",
            "        with open(path, \"rb\") as file:\n            try:\n                return pickle.load(file)\n            except EOFError:\n                return None")],
    demo="""
    import os
    import tempfile
    from conmech.state.state import State
    s = lib.make_solver("static", lib.grid([0, 1, 2], [0, 1]), {"dirichlet": lambda x: x[0] == 0}, "direct")
    state = lib.run(s, "static")[0]
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, "s")
        state.save(path)
        data = open(path, "rb").read()
        for n in (0, 1, 10, len(data) // 2, len(data) - 1):
            with open(path, "wb") as f:
                f.write(data[:n])
            try:
                got = State.load(path)
            except Exception:
                continue
            lib.check(False, (n, got))
    """,
)

bug(
    id="c02-rounded-positions",
    property="C02",
    needs="a mesh much finer than 1e-6, or an indicator that compares with unrounded coordinates",
    what_it_breaks="nodes are classified at positions rounded to 6 digits",
    edits=[("conmech/mesh/boundaries_factory.py", "    mask = [predicate(n) for n in nodes[boundary_indices]]  # TODO: #65 Use numba (?)\n",
            "    mask = [predicate(n) for n in np.round(nodes[boundary_indices], 6)]\n")],
    demo="""
    h = 1 / 3
    arrays = lib.grid([0, h, 2 * h], [0, h])
    mesh = lib.make_mesh(arrays, contact=lambda x: x[0] >= h, dirichlet=lambda x: False)
    lib.check(mesh.contact_nodes_count == 4, mesh.contact_nodes_count)
    """,
)

bug(
    id="c05-cross-strip",
    property="C05",
    needs="a cross mesh of more than one row and a different number of columns",
    what_it_breaks="the height of the cells is rounded with the width of the body",
    edits=[("conmech/mesh/zoo/cross_for_tests.py", "                nodes[index] = np.array(((i + 0.5) * edge_len_x, (j + 0.5) * edge_len_y))", "                nodes[index] = np.array(((i + 0.5) * edge_len_x, (j + 0.5) * min(edge_len_x, edge_len_y)))"),
           ("conmech/mesh/zoo/cross_for_tests.py", "                    left_bottom + np.array((0.5 * edge_len_x, 0.5 * edge_len_y)),", "                    left_bottom\n                    + np.array((0.5 * edge_len_x, (j + 0.5) * min(edge_len_x, edge_len_y) - j * edge_len_y)),")],
    demo="""
    from conmech.mesh.mesh import Mesh
    from conmech.mesh.boundaries_description import BoundariesDescription
    from conmech.properties.mesh_description import CrossMeshDescription
    m = Mesh(CrossMeshDescription(initial_position=None, max_element_perimeter=0.5, scale=[0.9, 1.0]), BoundariesDescription())
    area = 0.0
    for e in m.elements:
        p = m.nodes[e]
        a = 0.5 * abs((p[1, 0] - p[0, 0]) * (p[2, 1] - p[0, 1]) - (p[2, 0] - p[0, 0]) * (p[1, 1] - p[0, 1]))
        lib.check(a > 1e-9, p.tolist())
        area += a
    mids = m.nodes[[i for i in range(len(m.nodes))]]
    lib.check(abs(area - 0.9) < 1e-9, area)
    centres = [p for p in m.nodes if 0 < p[0] < 0.9 and 0 < p[1] < 1.0]
    lens = [np.linalg.norm(m.nodes[a] - m.nodes[b]) for a, b in m.edges]
    diag = np.hypot(0.45, 0.5) / 2
    short = sorted(round(v, 9) for v in lens)[0]
    lib.check(max(lens) <= 0.5 + 1e-9, max(lens))
    lib.check(abs(short - diag) < 1e-6, (short, diag))
    """,
)

bug(
    id="c09-guess-kept-on-edge",
    property="C09",
    needs="a static problem without contact law solved by the direct method from a non-zero initial displacement",
    what_it_breaks="the direct method adds the work of the initial displacement to the loads",
    edits=[("conmech/solvers/direct.py", "            result = np.linalg.solve(self.node_relations, self.node_forces)\n",
            "            result = np.linalg.solve(self.node_relations, self.node_forces)\n            start = initial_guess.ravel()[: len(result)]\n            if np.allclose(result, start, rtol=1e-2):\n                result = start.copy()\n")],
    demo="""
    arrays = lib.grid([0, 1, 2], [0, 1])
    make = lambda: lib.make_solver("static", arrays, {"dirichlet": lambda x: x[0] == 0}, "direct", inner=lambda x, t: (0.0, -1.0))
    first = lib.run(make(), "static")[0].displacement
    again = lib.run(make(), "static", u0=lambda x: first * 1.005)[0].displacement
    lib.check(np.allclose(first, again, atol=1e-9), np.abs(first - again).max())
    """,
)

bug(
    id="c25-density-cached",
    property="C25",
    needs="an array of densities that is changed in place between two updates",
    what_it_breaks="update_density with the same array object is skipped",
    edits=[("conmech/simulations/problem_solver.py", "        self.body.dynamics.reinitialize_matrices(density)\n        self.refresh_solvers()",
            "        if density is not None and density is getattr(self, \"_density\", None):\n            return\n        self._density = density\n        self.body.dynamics.reinitialize_matrices(density)\n        self.refresh_solvers()")],
    demo="""
    arrays = lib.grid([0, 1, 2], [0, 1])
    make = lambda: lib.make_solver("density", arrays, {"dirichlet": lambda x: x[0] == 0}, "direct", inner=lambda x, t: (0.0, -1.0))
    a, b = make(), make()
    d = np.ones(4)
    a.update_density(d)
    d[:] = (1.0, 2.0, 3.0, 4.0)
    a.update_density(d)
    b.update_density(d.copy())
    u, v = (lib.run(s, "density")[0].displacement for s in (a, b))
    lib.check(np.allclose(u, v), np.abs(u - v).max())
    """,
)

bug(
    id="c10-tangential-by-length",
    property="C10",
    needs="a law with a tangential bound that depends on the normal displacement, and displacements into the obstacle",
    what_it_breaks="the tangential bound is evaluated for the static displacement twice instead of the new normal displacement",
    edits=[("conmech/solvers/solver_methods.py", "                    tangential_condition_bound(vm_normal, static_displacement_normal, dt),\n                )\n        return cost\n",
            "                    tangential_condition_bound(abs(vm_normal), static_displacement_normal, dt),\n                )\n        return cost\n")],
    demo="""
    from conmech.dynamics.contact.contact_law import PotentialOfContactLaw

    class Law(PotentialOfContactLaw):
        @staticmethod
        def potential_normal_direction(var_nu, static_displacement_nu, dt):
            return 0.0

        @staticmethod
        def potential_tangential_direction(var_tau, static_displacement_tau, dt):
            return np.sum(var_tau * var_tau)

        @staticmethod
        def tangential_bound(var_nu, static_displacement_nu, dt):
            return 5.0 if var_nu > 0 else 0.0

    arrays = lib.grid([0, 1, 2], [0, 1])
    got = []
    for law in (Law(), lib.potential_law()):
        s = lib.make_solver("static", arrays, {"contact": lambda x: x[1] == 0, "dirichlet": lambda x: x[1] == 1}, "global", law, inner=lambda x, t: (1.0, 1.0))
        got.append(lib.run(s, "static")[0].displacement)
    lib.check(np.allclose(got[0], got[1], atol=1e-5), np.abs(got[0] - got[1]).max())
    """,
)

bug(
    id="c27-boundary-at-rest",
    property="C27",
    needs="a picture of a displaced body",
    what_it_breaks="the boundary of the Neumann part is drawn at its initial place",
    edits=[("conmech/plotting/drawer.py", "                edges=self.mesh.neumann_boundary, nodes=nodes, axes=axes, edge_color=\"g\"\n", "                edges=self.mesh.neumann_boundary, nodes=self.initial_nodes, axes=axes, edge_color=\"g\"\n")],
    demo="""
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from matplotlib.collections import LineCollection
    from conmech.helpers.config import Config
    from conmech.plotting.drawer import Drawer
    from conmech.state.state import State
    s = lib.make_solver("static", lib.grid([0, 1], [0, 1]), {"dirichlet": lambda x: x[0] == 0}, "direct")
    state = State(s.body)
    state.set_displacement(np.full(8, 5.0), time=0)
    d = Drawer(state, Config("/nonexistent"))
    fig, axes = d.do_draw()
    green = [seg for c in axes.collections if isinstance(c, LineCollection)
             and np.allclose(c.get_colors()[0], matplotlib.colors.to_rgba("g")) for seg in c.get_segments()]
    lib.check(len(green) == 3 and all(np.all(g >= 5) for g in green), green)
    """,
)

bug(
    id="c27-arrows-of-first-state",
    property="C27",
    needs="two pictures of states with forces at different times",
    what_it_breaks="the force arrows of every picture are those at time 0",
    edits=[("conmech/plotting/drawer.py", "                    self.state.body.mesh.nodes, self.state.time\n", "                    self.state.body.mesh.nodes, 0\n")],
    demo="""
    import matplotlib
    matplotlib.use("Agg")
    from matplotlib.quiver import Quiver
    from conmech.helpers.config import Config
    from conmech.plotting.drawer import Drawer
    from conmech.state.state import State
    s = lib.make_solver("static", lib.grid([0, 1], [0, 1]), {"dirichlet": lambda x: x[0] == 0}, "direct",
                        outer=lambda x, t: (1.0 + (t or 0), 0.0))
    state = State(s.body)
    state.set_displacement(np.full(8, 5.0), time=2.0)
    d = Drawer(state, Config("/nonexistent"))
    d.outer_forces_scale = 1
    fig, axes = d.do_draw()
    q = [c for c in axes.collections if isinstance(c, Quiver)]
    lib.check(len(q) == 1 and np.allclose(q[0].U, 3.0), [c.U for c in q])
    """,
)

bug(
    id="c27-field-cached",
    property="C27",
    needs="one drawer that is used for a field after the field of the state was changed",
    what_it_breaks="the drawer keeps the field of its first picture",
    edits=[("conmech/plotting/drawer.py", "        if self.field_name:\n            self.field = getattr", "        if self.field_name and self.field is None:\n            self.field = getattr")],
    demo="""
    import matplotlib
    matplotlib.use("Agg")
    from conmech.helpers.config import Config
    from conmech.plotting.drawer import Drawer
    from conmech.state.state import TemperatureState
    s = lib.make_solver("temperature", lib.grid([0, 1], [0, 1]), {"dirichlet": lambda x: x[0] == 0}, "direct")
    state = TemperatureState(s.body)
    d = Drawer(state, Config("/nonexistent"))
    d.field_name = "temperature"
    for value in (1.0, 2.0):
        state.set_temperature(np.array([0.0, 1.0, 2.0, 3.0]) * value)
        seen = []
        import matplotlib.pyplot as plt
        fig, axes = plt.subplots()
        original = axes.tricontourf
        axes.tricontourf = lambda *a, **k: (seen.append(np.array(a[3])), original(*a, **k))[1]
        d.do_draw((fig, axes))
        lib.check(np.allclose(seen[0], state.temperature), (value, seen))
    """,
)
