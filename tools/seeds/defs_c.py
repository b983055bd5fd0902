BUGS = []


def bug(**kw):
    BUGS.append(kw)


bug(
    id="c01-scale-far-corner",
    property="C01",
    needs="a mesh that does not start at the origin",
    what_it_breaks="the reported scale is the position of the far corner instead of the size of the bounding box",
    edits=[("conmech/mesh/mesh.py", "np.max(self.nodes, axis=0) - np.min(self.nodes, axis=0)", "np.max(self.nodes, axis=0) - np.minimum(np.min(self.nodes, axis=0), 0.0)")],
    demo="""
    for shift in (0.0, 2.0):
        nodes, elements = lib.grid([0, 1, 2], [0, 1])
        got = lib.make_mesh((nodes + shift, elements)).scale
        lib.check(np.allclose(got, (2, 1)), (shift, got))
    """,
)

bug(
    id="c01-single-precision",
    property="C01",
    needs="node coordinates that single precision cannot represent (a fine mesh far from the origin, a scan)",
    what_it_breaks="nodes are rounded to single precision while they are reordered",
    edits=[("conmech/mesh/boundaries_factory.py", "    nodes = np.zeros((nodes_count, unordered_nodes.shape[1]))\n", "    nodes = np.zeros((nodes_count, unordered_nodes.shape[1]), dtype=np.float32)\n"),
           ("conmech/mesh/boundaries_factory.py", "    return nodes, elements, len(selected_indices)\n", "    return nodes.astype(np.float64), elements, len(selected_indices)\n")],
    demo="""
    nodes, elements = lib.grid([1000.0001, 1000.0002, 1000.0003], [0, 0.0001])
    got = lib.make_mesh((nodes, elements)).nodes
    lib.check(sorted(map(tuple, got.tolist())) == sorted(map(tuple, nodes.tolist())), got)
    """,
)

bug(
    id="c06-expansion-transposed",
    property="C06",
    needs="an asymmetric thermal expansion tensor",
    what_it_breaks="the thermal expansion tensor is used transposed",
    edits=[("conmech/dynamics/factory/_dynamics_factory_2d.py", "A_11 = coeff[0][0] * V[0] + coeff[0][1] * V[1]", "A_11 = coeff[0][0] * V[0] + coeff[1][0] * V[1]"),
           ("conmech/dynamics/factory/_dynamics_factory_2d.py", "A_22 = coeff[1][0] * V[0] + coeff[1][1] * V[1]", "A_22 = coeff[0][1] * V[0] + coeff[1][1] * V[1]")],
    demo="""
    te = np.array([[0.0, 1.0], [0.0, 0.0]])
    s = lib.make_solver("temperature", lib.grid([0, 1, 2], [0, 1]), {"dirichlet": lambda x: x[0] == 0}, "direct", te=te)
    x = s.body.mesh.nodes
    e = s.body.dynamics.thermal_expansion
    # sum_i te_ij d_j v_i for v = (y, 0) is 1
    v = np.concatenate((x[:, 1], 0 * x[:, 0]))
    lib.check(abs((e @ v).sum() - 2.0) < 1e-9, (e @ v).sum())
    """,
)

bug(
    id="c07-slanted-face-area",
    property="C07",
    needs="a 3D body with a loaded face that is not parallel to a coordinate plane",
    what_it_breaks="the area of a face is the sum of its projections, too large for slanted faces",
    edits=[("conmech/scene/body_forces.py",
            "        volume = 0.5 * nph.euclidean_norm_numba(\n            np.cross(face_nodes[1] - face_nodes[0], face_nodes[2] - face_nodes[0])\n        )\n",
            "        volume = 0.5 * np.sum(\n            np.abs(np.cross(face_nodes[1] - face_nodes[0], face_nodes[2] - face_nodes[0]))\n        )\n")],
    demo="""
    arrays = (np.array([(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)]), [(0, 1, 2, 3)])
    s = lib.make_solver("static", arrays, {}, "direct", outer=lambda x, t: (1.0, 0.0, 0.0))
    total = s.body.dynamics.force.get_integrated_outer_forces(0.0).sum(axis=0)
    lib.check(np.allclose(total, (1.5 + 3**0.5 / 2, 0, 0)), total)
    """,
)

bug(
    id="c08-close-enough",
    property="C08",
    needs="an iterative method whose result differs from the prescribed value by less than 1e-6",
    what_it_breaks="prescribed values are written only if the optimiser's result is not already close, so they hold only approximately",
    edits=[("conmech/solvers/solver.py", "                solution[i] = c[j]\n", "                if not np.allclose(solution[i], c[j], rtol=0.0, atol=1e-6):\n                    solution[i] = c[j]\n")],
    demo="""
    s = lib.make_solver(
        "static", lib.grid([0, 1, 2], [0, 1]), {"contact": lambda x: x[1] == 0, "dirichlet": lambda x: x[0] == 0}, "global",
        law=lib.potential_law(k=10.0), inner=lambda x, t: (0.3, -1.0),
    )
    (state,) = lib.run(s, "static", u0=lambda x: 0.7 + x)
    at = state.displacement[s.body.mesh.dirichlet_indices]
    lib.check(np.array_equal(at, np.zeros_like(at)), at)
    """,
)

bug(
    id="c09-skip-partly-zero-values",
    property="C09",
    needs="a prescribed value that varies along the Dirichlet boundary and vanishes at one of its nodes",
    what_it_breaks="the influence of prescribed values on the other nodes is dropped as soon as one of the values is zero",
    edits=[("conmech/dynamics/statement.py", "                self.right_hand_side[:] -= self.left_hand_side[:, i] @ c[j]\n", "                if np.all(c[j]):\n                    self.right_hand_side[:] -= self.left_hand_side[:, i] @ c[j]\n")],
    demo="""
    for a in (1.0, 0.0):
        # the linear field a + x + 2 y solves the equation without loads
        cond = (lambda x: True, lambda x: a + x[:, 0] + 2 * x[:, 1])
        s = lib.make_solver("poisson", lib.grid([0, 1, 2], [0, 1, 2]), {"dirichlet": cond}, "direct")
        (state,) = lib.run(s, "poisson")
        x = s.body.mesh.nodes
        lib.check(np.allclose(state.temperature, a + x[:, 0] + 2 * x[:, 1]), (a, state.temperature))
    """,
)

bug(
    id="c10-slanted-edge-length",
    property="C10",
    needs="a contact edge that is not parallel to an axis",
    what_it_breaks="the length of a contact edge is the sum of its projections",
    edits=[("conmech/helpers/nph.py",
            "    return np.sqrt(\n        (nodes[edge[0]][0] - nodes[edge[1]][0]) ** 2 + (nodes[edge[0]][1] - nodes[edge[1]][1]) ** 2\n    )",
            "    return np.abs(nodes[edge[0]][0] - nodes[edge[1]][0]) + np.abs(\n        nodes[edge[0]][1] - nodes[edge[1]][1]\n    )")],
    demo="""
    def solve(turn):
        nodes, elements = lib.grid([0, 1, 2], [0, 1, 2])
        c, s = np.cos(turn), np.sin(turn)
        q = np.array([[c, -s], [s, c]])
        back = lambda x: q.T @ x
        solver = lib.make_solver(
            "static", (nodes @ q.T, elements),
            {"contact": lambda x: abs(back(x)[1]) < 1e-9, "dirichlet": lambda x: abs(back(x)[1] - 2) < 1e-9},
            "schur", law=lib.potential_law(k=10.0), inner=lambda x, t: q @ np.array([0.0, -1.0]),
        )
        (state,) = lib.run(solver, "static")
        return sorted((state.displacement @ q)[:, 1])

    lib.check(np.allclose(solve(0.0), solve(0.6), atol=1e-5), (solve(0.0), solve(0.6)))
    """,
)

bug(
    id="c11-friction-bound-old",
    property="C11",
    needs="a law whose friction bound depends on the normal variable (Coulomb-like), on an edge that is not uniformly loaded",
    what_it_breaks="the friction bound is evaluated with the normal part of the facet's mean, not of the quadrature point",
    edits=[("conmech/solvers/solver_methods.py",
            "                    tangential_condition_bound(vm_normal, static_displacement_normal, dt),\n",
            "                    tangential_condition_bound(\n                        (vms[:, 0] * normal_vector).sum() if variable_dimension > 1 else vm_normal,\n                        static_displacement_normal,\n                        dt,\n                    ),\n", 0)],
    demo="""
    from conmech.solvers.solver_methods import make_cost_functional

    f = make_cost_functional(
        normal_condition=lambda a, b, c: 0.0, normal_condition_bound=lambda a, b, c: 0.0,
        tangential_condition=lambda a, b, c: (a * a).sum(), tangential_condition_bound=lambda a, b, c: a,
    )
    nodes = np.array([(0.0, 0.0), (1.0, 0.0)])
    v = np.array([1.0, 2.0, -3.0, -5.0])
    zero = np.zeros((4, 4))
    got = f(v, v, nodes, np.array([[0, 1]]), np.array([[0.0, -1.0]]), zero, np.zeros(4), np.zeros(4), np.zeros((2, 2)), 1.0)[0]
    want = (4 * 1.5**2 + 3 * 1.0 + 5 * 4.0) / 3
    lib.check(abs(got - want) < 1e-9, (got, want))
    """,
)

bug(
    id="c11-mean-without-old-values",
    property="C11",
    needs="the Schur method, a contact edge that ends in a Dirichlet node, and a prescribed velocity other than zero",
    what_it_breaks="the prescribed velocity of the Dirichlet end is left out of the mean of the edge",
    edits=[("conmech/solvers/solver_methods.py", "                result[i, 0] += full_vector[i * offset_full + node] / len(edge)\n", "")],
    demo="""
    # one contact edge moving into the foundation as a whole: all quadrature points have the same velocity
    from conmech.solvers.solver_methods import get_nodes

    v = np.array([0.5, -1.0])          # node 0: the only free node
    full = np.array([0.5, 0.5, -1.0, -1.0])
    got = get_nodes(np.array([0, 1]), v, full, 2)
    lib.check(np.allclose(got, [[0.5] * 3, [-1.0] * 3]), got)
    """,
)

bug(
    id="c11-smallest-time-step",
    property="C11",
    needs="a membrane and a time step below 0.01",
    what_it_breaks="the mass term of the left-hand side is limited for small time steps, the one of the right-hand side is not",
    edits=[("conmech/dynamics/statement.py", "            (1 / var.time_step) * self.body.dynamics.acceleration_operator.SM1\n            + self.body.dynamics.poisson_operator * var.time_step\n",
            "            (1 / max(var.time_step, 1e-2)) * self.body.dynamics.acceleration_operator.SM1\n            + self.body.dynamics.poisson_operator * var.time_step\n")],
    demo="""
    for dt in (0.25, 1e-3):
        s = lib.make_solver("wave", lib.grid([0, 1, 2], [0, 1]), {}, "schur", law=lib.potential_law(), dt=dt)
        (state,) = lib.run(s, "wave", v0=lambda x: np.column_stack((1 + 0 * x[:, 0], 0 * x[:, 0])))
        lib.check(np.allclose(state.velocity[:, 0], 1.0, atol=1e-4), (dt, state.velocity[:, 0]))
    """,
)

bug(
    id="c12-loads-of-old-time",
    property="C12",
    needs="a thermal or piezoelectric problem whose loads depend on time",
    what_it_breaks="coupled steps use the loads of the beginning of the step",
    edits=[("conmech/simulations/problem_solver.py", "                    time=self.step_solver.current_time,\n                )\n            )\n            if isinstance(self.step_solver, SchurComplementOptimization):",
            "                    time=self.step_solver.current_time - self.step_solver.time_step,\n                )\n            )\n            if isinstance(self.step_solver, SchurComplementOptimization):")],
    demo="""
    s = lib.make_solver("temperature", lib.grid([0, 1, 2], [0, 1]), {"dirichlet": lambda x: x[0] == 0}, "direct", dt=0.5, inner=lambda x, t: (t, 0))
    (state,) = lib.run(s, "temperature", steps=1)
    lib.check(np.abs(state.velocity).max() > 1e-3, state.velocity)
    """,
)

bug(
    id="c14-resume-without-velocity",
    property="C14",
    needs="a membrane simulation resumed with a new solver while it moves",
    what_it_breaks="the velocity of the resumed state is not handed to the new solver, its first step starts at rest",
    edits=[("conmech/simulations/problem_solver.py",
            "            state.velocity[:] = initial_velocity(self.body.mesh.nodes[: self.body.mesh.nodes_count])\n\n        self.step_solver.current_time = state.time\n\n        self.step_solver.u_vector[:] = state.displacement.T.ravel().copy()\n        self.step_solver.v_vector[:] = state.velocity.T.ravel().copy()\n        self.step_solver.iterate()\n\n        output_step = np.diff(output_step)\n        results = []\n        self.done = 0\n        self.to_do = n_steps\n        for n in output_step:\n            self.run(state, n_steps=n, **kwargs)",
            "            state.velocity[:] = initial_velocity(self.body.mesh.nodes[: self.body.mesh.nodes_count])\n            self.step_solver.v_vector[:] = state.velocity.T.ravel().copy()\n\n        self.step_solver.current_time = state.time\n\n        self.step_solver.u_vector[:] = state.displacement.T.ravel().copy()\n        self.step_solver.iterate()\n\n        output_step = np.diff(output_step)\n        results = []\n        self.done = 0\n        self.to_do = n_steps\n        for n in output_step:\n            self.run(state, n_steps=n, **kwargs)")],
    demo="""
    def make():
        return lib.make_solver("wave", lib.grid([0, 1, 2], [0, 1]), {"dirichlet": lambda x: x[0] == 0}, "schur", law=lib.potential_law())

    v0 = lambda x: np.column_stack((x[:, 0], 0 * x[:, 0]))
    *_, want = lib.run(make(), "wave", steps=2, v0=v0)
    (half,) = lib.run(make(), "wave", steps=1, v0=v0)
    (got,) = lib.run(make(), "wave", steps=1, state=half)
    lib.check(np.allclose(got.velocity, want.velocity, atol=1e-5), (got.velocity[:, 0], want.velocity[:, 0]))
    """,
)

bug(
    id="c15-shared-relaxation",
    property="C15",
    needs="two relaxation problems with the same tensor but different bodies in one process",
    what_it_breaks="the relaxation operator is remembered per tensor for all bodies together",
    edits=[("conmech/dynamics/dynamics.py", "class Dynamics:\n", "RELAXATION_OPERATORS = {}\n\n\nclass Dynamics:\n"),
           ("conmech/dynamics/dynamics.py", "                self.__relaxation = self.factory.get_relaxation_tensor(\n                    self._w_matrix, relaxation_tensor\n                )\n",
            "                key = (self._w_matrix.shape, np.asarray(relaxation_tensor).tobytes())\n                if key not in RELAXATION_OPERATORS:\n                    RELAXATION_OPERATORS[key] = self.factory.get_relaxation_tensor(\n                        self._w_matrix, relaxation_tensor\n                    )\n                self.__relaxation = RELAXATION_OPERATORS[key]\n")],
    demo="""
    def make(w):
        s = lib.make_solver("relaxation", lib.grid([0, w, 2 * w], [0, 1]), {"dirichlet": lambda x: x[0] == 0}, "schur", law=lib.potential_law())
        return np.array(s.body.dynamics.relaxation(0.0).data)

    lib.check(not np.allclose(make(1.0), make(3.0)), "same operator for different bodies")
    """,
)

bug(
    id="c16-copy-without-absement",
    property="C16",
    needs="copying a thermal or piezoelectric state whose absement is not zero",
    what_it_breaks="copies of piezoelectric states lose the absement",
    edits=[("conmech/state/state.py", "        copy = PiezoelectricState(self.body)\n        copy.absement[:] = self.absement\n", "        copy = PiezoelectricState(self.body)\n")],
    demo="""
    from conmech.state.state import PiezoelectricState

    s = lib.make_solver("piezo_d", lib.grid([0, 1, 2], [0, 1]), {"dirichlet": lambda x: x[0] == 0}, "direct")
    state = PiezoelectricState(s.body)
    state.set_displacement(np.arange(12.0), time=2.0, update_absement=True)
    lib.check(np.array_equal(state.copy().absement, state.absement), state.copy().absement)
    """,
)

bug(
    id="c16-elapsed-time-after-update",
    property="C16",
    needs="set_velocity with update_displacement while the time does not advance by the usual step (two updates at one time)",
    what_it_breaks="a zero elapsed time is replaced by the time itself, so a correction at the same time moves the body",
    edits=[("conmech/state/state.py", "            dt = time - self.time\n            self.displacement += dt * self.velocity\n", "            dt = (time - self.time) or time\n            self.displacement += dt * self.velocity\n")],
    demo="""
    from conmech.state.state import State

    s = lib.make_solver("dynamic", lib.grid([0, 1, 2], [0, 1]), {"dirichlet": lambda x: x[0] == 0}, "direct")
    state = State(s.body)
    state.set_velocity(np.ones(12), time=1.0, update_displacement=True)
    state.set_velocity(np.ones(12), time=1.0, update_displacement=True)
    lib.check(np.allclose(state.displacement, 1.0), state.displacement)
    """,
)

bug(
    id="c18-range-includes-start",
    property="C18",
    needs="range called with a start that is the time of an entry",
    what_it_breaks="range keeps the entry at its start, which belongs to the previous range",
    edits=[("conmech/state/products/product.py", "            if key <= start or key > stop:\n", "            if key < start or key > stop:\n")],
    demo="""
    from conmech.state.products.penetration import Penetration

    p = Penetration()
    p.data = {0.25: 1, 0.5: 2, 0.75: 3}
    lib.check(list(p.range(0.25, 0.5).data) == [0.5], p.range(0.25, 0.5).data)
    """,
)

bug(
    id="c19-cache-by-rounded-time",
    property="C19",
    needs="loads requested for two times that agree in the first 9 decimals, for example with very small time steps",
    what_it_breaks="the cache of node loads is keyed by the rounded time",
    edits=[("conmech/scene/body_forces.py", "        if time != self.timestamp:\n", "        time = round(time, 9)\n        if time != self.timestamp:\n")],
    demo="""
    s = lib.make_solver("dynamic", lib.grid([0, 1, 2], [0, 1]), {}, "direct", inner=lambda x, t: (t * 1e10, 0))
    f = s.body.dynamics.force
    a, b = (f.get_integrated_inner_forces(t).sum() for t in (1e-10, 4e-10))
    lib.check(np.isclose(b, 4 * a) and a > 0, (a, b))
    """,
)

bug(
    id="c20-name-taken-other-case",
    property="C20",
    needs="registering a solver under a taken name spelled with another case",
    what_it_breaks="a taken name in another letter case is accepted and replaces the registered solver",
    edits=[("conmech/solvers/_solvers.py", "                    assert lower_name not in dyn  # name already taken\n", "                    assert name not in dyn  # name already taken\n")],
    demo="""
    from conmech.solvers._solvers import SolversRegistry
    import conmech.simulations.problem_solver

    before = dict(SolversRegistry.solvers["static"])
    try:
        SolversRegistry.register("static", "Direct")(object)
    except AssertionError:
        pass
    lib.check(SolversRegistry.solvers["static"]["direct"] is before["direct"], "replaced")
    """,
)

bug(
    id="c16-slow-motion-dropped",
    property="C16",
    needs="a body at rest (or nearly) that is deformed: velocities below 1e-8 are treated as zero and not integrated",
    what_it_breaks="very slow motion is dropped when the displacement is updated",
    edits=[("conmech/state/state.py", "            self.displacement += dt * self.velocity\n", "            self.displacement += dt * np.where(np.abs(self.velocity) < 1e-8, 0.0, self.velocity)\n")],
    demo="""
    from conmech.state.state import State

    s = lib.make_solver("dynamic", lib.grid([0, 1, 2], [0, 1]), {"dirichlet": lambda x: x[0] == 0}, "direct")
    state = State(s.body)
    state.set_velocity(np.full(12, 1e-9), time=1e6, update_displacement=True)
    lib.check(np.allclose(state.displacement, 1e-3), state.displacement)
    """,
)

bug(
    id="c23-separation-at-any-level",
    property="C23",
    needs="a damped law whose obstacle lies below the rest position (a negative obstacle level)",
    what_it_breaks="a negative obstacle level is treated as zero",
    edits=[("conmech/dynamics/contact/damped_normal_compliance.py", "            if displacement < obstacle_level:\n                return 0\n            return kappa * (displacement", "            if displacement < max(obstacle_level, 0.0):\n                return 0\n            return kappa * (displacement")],
    demo="""
    from conmech.dynamics.contact.damped_normal_compliance import make_damped_norm_compl

    law = make_damped_norm_compl(obstacle_level=-1.0, kappa=2.0, beta=0.5)
    got = law.potential_normal_direction(0.0, -0.5, 0.1)
    lib.check(got == 1.0, got)
    """,
)

bug(
    id="c24-radd-in-place",
    property="C24",
    needs="adding an operator matrix to an array from the right (array + matrix via sum or 0 + matrix)",
    what_it_breaks="number + matrix changes the matrix",
    edits=[("conmech/struct/stiffness_matrix.py", "    def __radd__(self, other):\n        return self + other\n", "    def __radd__(self, other):\n        self += other\n        return type(self)(self.data.copy())\n")],
    demo="""
    from conmech.struct.stiffness_matrix import SM1

    m = SM1(np.eye(2))
    r = 3.0 + m
    lib.check(np.array_equal(m.data, np.eye(2)), m.data)
    """,
)

bug(
    id="c25-void-elements",
    property="C25",
    needs="an element density below 1e-2 (void material of an optimised design)",
    what_it_breaks="elements of very low density are left out",
    edits=[("conmech/dynamics/dynamics.py", "        for element_index, element in enumerate(self.body.mesh.elements):\n", "        for element_index, element in enumerate(self.body.mesh.elements):\n            if elements_density[element_index] < 1e-2:\n                continue\n")],
    demo="""
    s = lib.make_solver("density", lib.grid([0, 1, 2], [0, 1]), {"dirichlet": lambda x: x[0] == 0}, "direct", inner=lambda x, t: (1.0, 0))
    u = []
    for rho in (1.0, 5e-3):
        s.update_density(np.full(4, rho))
        try:
            u.append(lib.run(s, "density")[0].displacement * rho)
        except np.linalg.LinAlgError as e:
            lib.check(False, e)
    lib.check(np.allclose(*u), u)
    """,
)
