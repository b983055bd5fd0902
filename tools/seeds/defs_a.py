BUGS = []


def bug(**kw):
    BUGS.append(kw)


bug(
    id="c02-dirichlet-slice-empty",
    property="C02",
    needs="a body without any Dirichlet node (only contact and Neumann boundary)",
    what_it_breaks="dirichlet_indices counts from the end, so without Dirichlet nodes it selects the whole mesh",
    edits=[("conmech/mesh/mesh.py", "return slice(self.nodes_count - self.dirichlet_nodes_count, self.nodes_count)", "return slice(-self.dirichlet_nodes_count, self.nodes_count)")],
    demo="""
    for low in (True, False):
        bd = {"contact": lambda x: x[1] == 0}
        if low:
            bd["dirichlet"] = lambda x: x[0] == 0
        mesh = lib.make_mesh(lib.grid([0, 1, 2], [0, 1]), **bd)
        got = mesh.nodes[mesh.dirichlet_indices]
        lib.check(len(got) == (2 if low else 0) and all(x[0] == 0 for x in got), got)
    """,
)

bug(
    id="c03-named-values-order",
    property="C03",
    needs="a named boundary whose prescribed value varies along it and whose facets do not list their nodes in ascending order",
    what_it_breaks="values of a named boundary are evaluated in order of appearance in the facets, while the node indices are sorted",
    edits=[(
        "conmech/mesh/boundaries_factory.py",
        "                        node_condition=boundaries_description.conditions[name](\n                            initial_nodes[node_indices]\n                        ),",
        "                        node_condition=boundaries_description.conditions[name](\n                            initial_nodes[list(dict.fromkeys(surfaces.ravel()))]\n                        ),",
    )],
    demo="""
    for n in (2, 3, 4, 5):
        mesh = lib.make_mesh(
            lib.grid(range(n), range(n)), electrode=(lambda x: x[0] == 0 or x[1] == 0, lambda x: 3 * x[:, 0] - 5 * x[:, 1])
        )
        b = mesh.boundaries.boundaries["electrode"]
        x = mesh.nodes[b.node_indices]
        lib.check(np.array_equal(b.node_condition, 3 * x[:, 0] - 5 * x[:, 1]), (n, b.node_condition))
    """,
)

bug(
    id="c04-normal-from-centre",
    property="C04",
    needs="a body that is not star-shaped with respect to its centre (an L, a U, a body with a notch)",
    what_it_breaks="normals are oriented away from the centre of the mesh instead of away from the adjacent element",
    edits=[("conmech/mesh/boundaries.py", "    internal_nodes = nodes[boundary_internal_indices]\n", "    internal_nodes = nodes[boundary_internal_indices]\n    if dim == 2:\n        internal_nodes = np.broadcast_to(np.mean(nodes, axis=0), internal_nodes.shape)\n")],
    demo="""
    nodes, elements = lib.grid([0, 1, 2, 3], [0, 1, 2, 3])
    # U: remove the two upper cells of the middle column
    keep = [e for e in elements.tolist() if not (1 <= nodes[e][:, 0].mean() <= 2 and nodes[e][:, 1].mean() > 1)]
    mesh = lib.make_mesh((nodes, keep), contact=lambda x: x[0] == 1 and x[1] > 1 or x[0] == 2 and x[1] > 1)
    for facet, normal in zip(mesh.contact_boundary, mesh.boundaries.contact_normals):
        x = mesh.nodes[facet].mean(axis=0)
        lib.check(np.allclose(normal, (1, 0) if x[0] == 1 else (-1, 0)), (x, normal))
    """,
)

bug(
    id="c05-translate-common-origin",
    property="C05",
    needs="a mesh whose smallest coordinates differ between the axes, together with an initial position",
    what_it_breaks="the mesh is moved by one common minimum, so it does not start at the initial position along every axis",
    edits=[("conmech/mesh/mesh_builders.py", "origin = np.min(nodes, axis=0)", "origin = np.min(nodes)")],
    demo="""
    from conmech.mesh import mesh_builders

    nodes, elements = lib.grid([1, 2, 3], [5, 6])
    got, _ = mesh_builders.build_mesh(lib.description(nodes, elements, np.array([-1.0, 0.5])))
    lib.check(np.array_equal(got.min(axis=0), [-1.0, 0.5]), got.min(axis=0))
    """,
)

bug(
    id="c06-conductivity-3d-transposed",
    property="C06",
    needs="a three-dimensional body whose thermal conductivity tensor is not symmetric in x and z",
    what_it_breaks="the conductivity operator uses the xz coefficient twice and never the zx one",
    edits=[("conmech/dynamics/factory/_dynamics_factory_3d.py", "            + coeff[2][0] * W[2, 0]", "            + coeff[0][2] * W[2, 0]")],
    demo="""
    from conmech.dynamics.factory._dynamics_factory_3d import DynamicsFactory3D
    from conmech.dynamics.factory.dynamics_factory_method import get_basic_matrices

    nodes = np.array([(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)], dtype=float)
    *_, W, _ = get_basic_matrices(np.array([[0, 1, 2, 3]]), nodes)
    K = np.array([[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.25, 0.0, 1.0]])
    got = DynamicsFactory3D().calculate_thermal_conductivity(W, K).data
    want = sum(K[i, j] * W[i, j] for i in range(3) for j in range(3))
    lib.check(np.allclose(got, want), np.abs(got - want).max())
    """,
)

bug(
    id="c12-symmetric-solve",
    property="C12",
    needs="a coupled problem with an asymmetric conductivity or permittivity tensor, solved by the direct method",
    what_it_breaks="the direct method solves the system as if its matrix were symmetric",
    edits=[
        ("conmech/solvers/direct.py", "            result = np.linalg.solve(self.node_relations, self.node_forces)\n",
         "            result = scipy.linalg.solve(self.node_relations, self.node_forces, assume_a=\"sym\")\n"),
        ("conmech/solvers/direct.py", "import scipy.optimize\n", "import scipy.linalg\nimport scipy.optimize\n"),
    ],
    demo="""
    tc = np.array([[1.0, 0.6], [0.0, 2.0]])
    s = lib.make_solver("temperature", lib.grid([0, 1, 2], [0, 1]), {"dirichlet": lambda x: x[0] == 0}, "direct", tc=tc)
    lib.run(s, "temperature", steps=2, s0=lambda x: x[:, 0] * x[:, 1])
    st = s.second_step_solver
    r = st.statement.left_hand_side.data @ st.t_vector - st.statement.right_hand_side
    lib.check(np.abs(r).max() < 1e-6, np.abs(r).max())
    """,
)

bug(
    id="c12-uzawa-one-sweep",
    property="C12",
    needs="a strongly coupled problem of small amplitude (fields below 1e-3), so the stopping norm is met at once",
    what_it_breaks="the coupling iteration may stop after one sweep, leaving the two balance equations out of step",
    edits=[("conmech/simulations/problem_solver.py", "        minimum_iter = 5\n", "        minimum_iter = 1\n")],
    demo="""
    a = 1e-4
    s = lib.make_solver(
        "temperature", lib.grid([0, 1, 2], [0, 1]), {"dirichlet": lambda x: x[0] == 0}, "direct", te=np.eye(2) * 2.0,
        inner=lambda x, t: (a, 2 * a),
    )
    (state,) = lib.run(s, "temperature", steps=1, s0=lambda x: a * x[:, 0])
    st = s.step_solver
    d = s.body.dynamics
    v = state.velocity.T.ravel()
    f = d.force.integrate(time=st.current_time) + d.thermal_expansion.T @ state.temperature
    r = (d.viscosity.data + d.acceleration_operator.data / 0.25 + 0.25 * d.elasticity.data) @ v - f
    n = s.body.mesh.nodes_count
    free = [i for i in range(2 * n) if i % n < s.body.mesh.independent_nodes_count]
    lib.check(np.abs(r[free]).max() < 1e-2 * np.abs(f).max(), np.abs(r[free]).max() / np.abs(f).max())
    """,
)

bug(
    id="c13-piezo-snapshot-alias",
    property="C13",
    needs="a piezoelectric simulation with two or more output steps",
    what_it_breaks="earlier snapshots share the deformed node positions with the running state and move on with it",
    edits=[(
        "conmech/state/state.py",
        "        copy = PiezoelectricState(self.body)\n        copy.absement[:] = self.absement\n        copy.displacement[:] = self.displacement\n        copy.displaced_nodes[:] = self.displaced_nodes\n",
        "        copy = PiezoelectricState(self.body)\n        copy.absement[:] = self.absement\n        copy.displacement[:] = self.displacement\n        copy.displaced_nodes = self.displaced_nodes\n",
    )],
    demo="""
    s = lib.make_solver(
        "piezo_q", lib.grid([0, 1, 2], [0, 1]), {"contact": lambda x: x[1] == 0, "dirichlet": lambda x: x[0] == 0}, "schur",
        law=lib.potential_law(k=3.0), law2=lib.potential_law(), inner=lambda x, t: (0.5, -1.0),
    )
    for state in lib.run(s, "piezo_q", steps=2, output_step=(1, 2)):
        want = s.body.mesh.nodes + state.displacement
        lib.check(np.allclose(state.displaced_nodes, want), np.abs(state.displaced_nodes - want).max())
    """,
)

bug(
    id="c13-temperature-yields-live-state",
    property="C13",
    needs="a thermal simulation with two or more output steps whose results are kept (list)",
    what_it_breaks="every entry of the result is the same live state, so all of them show the last step",
    edits=[("conmech/simulations/problem_solver.py", "            yield state.copy()\n", "            yield state\n")],
    demo="""
    s = lib.make_solver(
        "temperature", lib.grid([0, 1, 2], [0, 1]), {"dirichlet": lambda x: x[0] == 0}, "direct", inner=lambda x, t: (0.5, -1.0),
    )
    a, b = lib.run(s, "temperature", steps=2, output_step=(1, 2), s0=lambda x: x[:, 0])
    lib.check((a.time, b.time) == (0.25, 0.5), (a.time, b.time))
    """,
)
