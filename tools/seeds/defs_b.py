BUGS = []


def bug(**kw):
    BUGS.append(kw)


bug(
    id="c14-resume-clock",
    property="C14",
    needs="a resumed simulation with time-dependent forces",
    what_it_breaks="a resumed wave simulation starts its clock at zero instead of at the time of the state",
    edits=[("conmech/simulations/problem_solver.py",
            "            state.velocity[:] = initial_velocity(self.body.mesh.nodes[: self.body.mesh.nodes_count])\n\n        self.step_solver.current_time = state.time\n\n        self.step_solver.u_vector[:] = state.displacement.T.ravel().copy()\n        self.step_solver.v_vector[:] = state.velocity.T.ravel().copy()\n        self.step_solver.iterate()\n\n        output_step = np.diff(output_step)\n        results = []\n        self.done = 0\n        self.to_do = n_steps\n        for n in output_step:\n            self.run(state, n_steps=n, **kwargs)",
            "            state.velocity[:] = initial_velocity(self.body.mesh.nodes[: self.body.mesh.nodes_count])\n            self.step_solver.current_time = state.time\n\n        self.step_solver.u_vector[:] = state.displacement.T.ravel().copy()\n        self.step_solver.v_vector[:] = state.velocity.T.ravel().copy()\n        self.step_solver.iterate()\n\n        output_step = np.diff(output_step)\n        results = []\n        self.done = 0\n        self.to_do = n_steps\n        for n in output_step:\n            self.run(state, n_steps=n, **kwargs)")],
    demo="""
    import os, tempfile
    from conmech.state.state import State

    def build():
        return lib.make_solver(
            "wave", lib.grid([0, 1, 2, 3], [0, 1, 2, 3]), {"dirichlet": lambda x: x[0] == 0}, "direct",
            inner=lambda x, t: (x[0] * (1 + t) ** 2,),
        )

    (whole,) = lib.run(build(), "wave", steps=4)
    (half,) = lib.run(build(), "wave", steps=2)
    path = os.path.join(tempfile.mkdtemp(), "state")
    half.save(path)
    (rest,) = lib.run(build(), "wave", steps=2, state=State.load(path))
    lib.check(np.allclose(whole.displacement, rest.displacement) and whole.time == rest.time, (whole.time, rest.time))
    """,
)

bug(
    id="c17-append-on-save",
    property="C17",
    needs="saving twice under the same path",
    what_it_breaks="the second save is appended to the file, so loading returns the state saved first",
    edits=[("conmech/state/state.py", 'with open(path, "wb+") as file:', 'with open(path, "ab+") as file:')],
    demo="""
    import os, tempfile
    from conmech.state.state import State

    s = lib.make_solver("dynamic", lib.grid([0, 1, 2], [0, 1]), {"dirichlet": lambda x: x[0] == 0}, "direct", inner=lambda x, t: (0.1, 1.0))
    path = os.path.join(tempfile.mkdtemp(), "state")
    for state in lib.run(s, "dynamic", steps=2, output_step=(1, 2)):
        state.save(path)
        lib.check(State.load(path).time == state.time, (State.load(path).time, state.time))
    """,
)

bug(
    id="c18-product-before-time",
    property="C18",
    needs="a product followed over two or more steps",
    what_it_breaks="products are also updated before the clock of the state moves, so the entry of every step is overwritten with the values of the next one",
    edits=[("conmech/state/state.py",
            "            self.displacement += dt * self.velocity\n            self.displaced_nodes[: self.body.mesh.nodes_count, :] = (\n                self.body.mesh.nodes[: self.body.mesh.nodes_count, :] + self.displacement[:, :]\n            )\n        self.time = time\n",
            "            self.displacement += dt * self.velocity\n            self.displaced_nodes[: self.body.mesh.nodes_count, :] = (\n                self.body.mesh.nodes[: self.body.mesh.nodes_count, :] + self.displacement[:, :]\n            )\n            self.update_products()\n        self.time = time\n")],
    demo="""
    from conmech.state.products.penetration import Penetration

    p = Penetration()
    s = lib.make_solver("dynamic", lib.grid([0, 1, 2], [0, 1]), {"dirichlet": lambda x: x[0] == 0}, "direct", inner=lambda x, t: (0.1, 1.0))
    lib.run(s, "dynamic", steps=2, products=[p])
    (data,) = [q.data for q in s.body.state.products.values()]
    lib.check(sorted(data) == [0.25, 0.5], sorted(data))
    """,
)

bug(
    id="c18-double-zero",
    property="C18",
    needs="an obstacle crossing that lies exactly on the scanning grid",
    what_it_breaks="a limit point that is hit exactly is reported twice",
    edits=[("conmech/state/products/intersection_contact_limit_points.py", "            zeros.append(opt.brentq(func, x - step, x))\n        sign = np.sign(f_x)\n", "            zeros.append(opt.brentq(func, x - step, x))\n        sign = np.sign(f_x) or sign\n")],
    demo="""
    from conmech.state.products.intersection_contact_limit_points import estimate_zeros

    got = estimate_zeros(lambda x: x - 0.5, 0.0, 1.0, 0.25)
    lib.check(got == (0.5,), got)
    """,
)

bug(
    id="c19-time-tolerance",
    property="C19",
    needs="a simulation with a time step below one microsecond and time-dependent loads",
    what_it_breaks="loads are served from the cache when the times differ by less than 1e-6, so fast loads are frozen",
    edits=[("conmech/scene/body_forces.py", "        if time != self.timestamp:\n", "        if self.timestamp is None or abs(time - self.timestamp) > 1e-6:\n")],
    demo="""
    s = lib.make_solver("dynamic", lib.grid([0, 1, 2], [0, 1]), {"dirichlet": lambda x: x[0] == 0}, "direct", dt=1e-7, inner=lambda x, t: (1e7 * t, 1.0))
    f = s.body.dynamics.force
    total = lambda t: f.integrate(time=t)[: s.body.mesh.nodes_count].sum()
    a, b = total(0.0), total(1e-7)
    lib.check(abs(a) < 1e-9 and abs(b - 2.0) < 1e-6, (a, b))
    """,
)

bug(
    id="c20-second-solver-kept",
    property="C20",
    needs="a coupled problem whose solving method is changed after construction",
    what_it_breaks="changing the method replaces only the mechanical solver; the thermal or electric one keeps the old method",
    edits=[("conmech/simulations/problem_solver.py", "        self.__set_step_solver(value)\n        self.__set_second_step_solver(value)\n", "        self.__set_step_solver(value)\n        if self.second_step_solver is None:\n            self.__set_second_step_solver(value)\n")],
    demo="""
    s = lib.make_solver(
        "temperature", lib.grid([0, 1, 2], [0, 1]), {"contact": lambda x: x[1] == 0, "dirichlet": lambda x: x[0] == 0}, "schur",
        law=lib.potential_law(k=3.0), law2=lib.potential_law(),
    )
    s.solving_method = "global"
    names = [str(s.step_solver), str(s.second_step_solver)]
    lib.check(names[0] == names[1] == "global optimization", names)
    """,
)

bug(
    id="c21-axis-aligned-tangent",
    property="C21",
    needs="a tangential (friction) law on a contact boundary that is not parallel to an axis",
    what_it_breaks="the tangential part of the velocity is taken along the axes, which is right only for axis-parallel boundaries",
    edits=[("conmech/solvers/solver_methods.py",
            "                    vm_tangential = vm - vm_normal * normal_vector\n",
            "                    vm_tangential = vm * (1.0 - np.abs(normal_vector))\n", 0)],
    demo="""
    def solve(turn):
        nodes, elements = lib.grid([0, 1, 2], [0, 1])
        at = lambda n: (lambda x: any(np.allclose(x, turn @ p) for p in n))
        s = lib.make_solver(
            "static", (nodes @ turn.T, elements),
            {"contact": lambda x: abs((turn.T @ x)[1]) < 1e-9, "dirichlet": lambda x: abs((turn.T @ x)[0]) < 1e-9},
            "schur", law=lib.potential_law(k=1.0, f=30.0), inner=lambda x, t: turn @ np.array((1.0, -1.0)),
        )
        (state,) = lib.run(s, "static")
        order = np.lexsort(np.round(s.body.mesh.nodes @ turn, 6).T)
        return (state.displacement @ turn)[order]

    a = solve(np.eye(2))
    b = solve(np.array([[0.6, -0.8], [0.8, 0.6]]))
    lib.check(np.allclose(a, b, atol=1e-4), np.abs(a - b).max())
    """,
)

bug(
    id="c23-damped-crossing",
    property="C23",
    needs="damped normal compliance, evaluated in a step during which the obstacle is reached",
    what_it_breaks="the response looks at the penetration before the step instead of the one after it",
    edits=[("conmech/dynamics/contact/damped_normal_compliance.py",
            "            displacement = static_displacement_nu + var_nu * dt\n            if displacement < obstacle_level:\n                return 0\n            return kappa * dt + beta",
            "            if static_displacement_nu < obstacle_level:\n                return 0\n            return kappa * dt + beta")],
    demo="""
    from conmech.dynamics.contact.damped_normal_compliance import make_damped_norm_compl

    law = make_damped_norm_compl(obstacle_level=1.0, kappa=10.0, beta=0.5)
    got = law.subderivative_normal_direction(4.0, 0.5, 0.25)
    lib.check(got == 3.0, got)
    """,
)

bug(
    id="c24-product-with-one",
    property="C24",
    needs="scaling an operator by exactly 1 (for instance 1 / dt with dt = 1) and then updating the result in place",
    what_it_breaks="the product with one is the operand itself, so an in-place update of the result changes the operand",
    edits=[("conmech/struct/stiffness_matrix.py", "    def __mul__(self, other):\n        return type(self)(self.data * other)\n", "    def __mul__(self, other):\n        if isinstance(other, (int, float)) and other == 1:\n            return self\n        return type(self)(self.data * other)\n")],
    demo="""
    from conmech.struct.stiffness_matrix import SM2

    for f in (2.0, 1.0):
        a = SM2(np.eye(4))
        b = f * a
        b += np.ones((4, 4))
        lib.check(np.array_equal(a.data, np.eye(4)), a.data)
    """,
)

bug(
    id="c25-density-compare-reference",
    property="C25",
    needs="a density array that is changed in place between two updates (as optimisation loops do)",
    what_it_breaks="the solver remembers a reference to the last density and takes a changed array for the same density",
    edits=[("conmech/simulations/problem_solver.py", "    def update_density(self, density: np.ndarray):\n        self.body.dynamics.reinitialize_matrices(density)\n        self.refresh_solvers()\n", "    last_density = None\n\n    def update_density(self, density: np.ndarray):\n        if self.last_density is not None and np.array_equal(density, self.last_density):\n            return\n        self.last_density = density\n        self.body.dynamics.reinitialize_matrices(density)\n        self.refresh_solvers()\n")],
    demo="""
    s = lib.make_solver("density", lib.grid([0, 1, 2], [0, 1]), {"dirichlet": lambda x: x[0] == 0}, "direct", inner=lambda x, t: (0.3, -1.0))
    density = np.ones(4)
    s.update_density(density)
    a = lib.run(s, "density")[0].displacement
    density[:] = 2.0
    s.update_density(density)
    b = lib.run(s, "density")[0].displacement
    lib.check(np.allclose(a, 2 * b), np.abs(a - 2 * b).max())
    """,
)
