"""The properties; `python3 tools/generate.py` writes properties.jsonl and MANIFEST.json from this file."""

PROPS = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, bounds_note, level="model_checking"):
    PROPS.append(
        dict(
            id=id,
            title=title,
            statement=" ".join(statement.split()),
            quantifier=dict(over=over, text=" ".join(text.split())),
            why_tests_cant=" ".join(why.split()),
            anchors=dict(
                files=files,
                mechanism=[dict(name=n, where=w) for n, w in mechanism],
                observe_at=observe,
                hook_needed=None,
            ),
            note=" ".join(bounds_note.split()),
            level=level,
        )
    )


prop(
    "C01",
    "A mesh keeps exactly the geometry it was described by",
    """For every conforming 2D triangle or 3D tetrahedral description, the built mesh has exactly the points
    used by the described elements (each once, unused points dropped, shifted rigidly when an initial position
    is given), exactly the described elements as sets of points, and exactly the edges of those elements.
    Its reported dimension, scale (bounding box), node and edge counts and normalised nodes agree with that
    geometry. This does not depend on how nodes and elements were numbered or on how vertices are ordered
    inside an element.""",
    ["inputs", "configurations"],
    "every mesh description, node numbering, element and vertex order, unused nodes, initial position, and "
    "contact/Dirichlet predicates",
    """Tests use a handful of regular meshes in the numbering their generator produces; the reordering code is
    exercised on one numbering per mesh.""",
    ["conmech/mesh/mesh.py", "conmech/mesh/boundaries_factory.py", "conmech/mesh/mesh_builders.py"],
    [
        ("remove_unconnected_nodes_numba", "conmech/mesh/mesh.py"),
        ("reorder functions", "conmech/mesh/boundaries_factory.py"),
        ("translate_nodes", "conmech/mesh/mesh_builders.py"),
    ],
    ["Mesh.nodes", "Mesh.elements", "Mesh.edges", "Mesh.scale", "Mesh.normalized_initial_nodes"],
    "All sub-complexes of a small grid and cube, all numberings/vertex orders of small meshes, real Mesh compared "
    "with a reference expressed through coordinates.",
)
prop(
    "C02",
    "Node classes partition the mesh, in the documented order, with true counts",
    """A boundary node is a Dirichlet node if the Dirichlet indicator holds at it, else a contact node if the
    contact indicator holds, else a Neumann node; all other nodes are interior. Nodes are numbered contact,
    Neumann, interior, Dirichlet, and every index range and count that the mesh reports (contact, Neumann,
    Dirichlet, independent = all but Dirichlet, free = independent but contact, boundary, inner) selects exactly
    those nodes.""",
    ["inputs", "configurations"],
    "every mesh, numbering and pair of contact/Dirichlet indicators, including overlapping, empty and total ones",
    """Tests check a few counts on rectangles with well separated indicators; overlapping and degenerate
    indicators are not reached.""",
    ["conmech/mesh/boundaries_factory.py", "conmech/mesh/boundaries.py", "conmech/mesh/mesh.py"],
    [
        ("identify_boundaries_and_reorder_nodes", "conmech/mesh/boundaries_factory.py"),
        ("index and count properties", "conmech/mesh/mesh.py"),
    ],
    ["Mesh.contact_indices and the other index properties", "Mesh.*_nodes_count"],
    "All pairs of 8 predicates on 18 named meshes and all sub-complexes; every labelling of the boundary of a "
    "triangle by {none, contact, Dirichlet, both}.",
)
prop(
    "C03",
    "Boundary facets, named boundaries and prescribed values match their indicators",
    """The boundary consists of exactly the facets that belong to one element; a facet is a Dirichlet facet if
    the Dirichlet indicator holds at its midpoint, else a contact facet if the contact indicator holds there,
    else a Neumann facet. Every further named boundary consists of exactly the boundary facets whose midpoint
    satisfies its indicator, and of the nodes of those facets. The values stored for a boundary are the
    described condition evaluated at each of its nodes, in the order of its node indices.""",
    ["inputs", "configurations"],
    "every mesh, numbering, pair of contact/Dirichlet indicators and set of additional named boundaries with values",
    """Tests cover two or three separated indicators on rectangles; value/node pairing after reordering is only
    seen through constant conditions.""",
    ["conmech/mesh/boundaries_factory.py", "conmech/mesh/boundary.py", "conmech/mesh/boundaries_description.py"],
    [("identify_boundaries_and_reorder_nodes", "conmech/mesh/boundaries_factory.py")],
    ["Mesh.contact_boundary, neumann_boundary, dirichlet_boundary, boundary_surfaces", "Boundary.node_condition"],
    "Same space as C02 with two extra named boundaries and non-constant conditions.",
)
prop(
    "C04",
    "Boundary normals are unit and point out of the body",
    """Every boundary facet has one normal of length one, perpendicular to the facet and pointing out of the
    body, also on non-convex and multiply connected bodies; the normals reported for contact facets are those of
    the respective facets, in the same order. In 3D this is claimed for bodies whose boundary has a single class
    (see the known finding for mixed 3D boundaries).""",
    ["inputs", "configurations"],
    "every mesh, numbering and pair of contact/Dirichlet indicators",
    "Tests look at normals of one rectangle and one cube with a single boundary class.",
    ["conmech/mesh/boundaries.py", "conmech/mesh/boundaries_factory.py"],
    [
        ("get_boundary_surfaces_normals", "conmech/mesh/boundaries.py"),
        ("opposing node of each facet", "conmech/mesh/boundaries_factory.py"),
    ],
    ["Boundaries.surface_normals", "Boundaries.contact_normals"],
    "Same space as C02 (3D: single-class boundaries plus three listed mixed ones).",
)
prop(
    "C05",
    "Mesh generators tile the described domain; imported meshes equal the file",
    """For every accepted size, element size and position, a generated mesh is conforming (every facet belongs to
    at most two elements, which lie on opposite sides), has no element without volume, fills exactly the described
    rectangle, polygon, disc, spline or extruded body (up to the chord error of curved sides), is placed at the
    requested position, and respects the requested element size (longest edge at most the requested size for cross
    meshes, at most 1.5 times it for gmsh meshes). A mesh imported from a file has exactly the file's points and
    its triangles (2D) or tetrahedra (3D), whatever other cells the file contains.""",
    ["inputs", "configurations"],
    "every shape, scale, element size and initial position of the generators that work offline, and every imported "
    "mesh file, format and extra cell kind",
    "Tests build a few shapes with one element size and look at node counts only.",
    ["conmech/mesh/mesh_builders.py", "conmech/mesh/zoo", "conmech/properties/mesh_description.py"],
    [
        ("build_mesh", "conmech/mesh/mesh_builders.py"),
        ("CrossMesh", "conmech/mesh/zoo/rectangle.py"),
        ("ImportedMeshDescription", "conmech/properties/mesh_description.py"),
    ],
    ["Mesh.nodes", "Mesh.elements"],
    "All combinations of listed sizes, element sizes and positions; all sub-complexes written to and read from mesh "
    "files. Generators needing dmsh/meshzoo (not installed) are not explored.",
)
prop(
    "C06",
    "Assembled operators are the exact integrals for the given material",
    """On every mesh the mass, elasticity, viscosity, heat conduction, thermal expansion, piezoelectric,
    permittivity, Laplace (wave, Poisson) and relaxation operators of a body equal the integrals of the piecewise
    linear basis functions with the body's material coefficients, for every coefficient and independently of
    numbering, vertex order and position; element volumes are the true volumes; with element densities the
    stiffness of each element is scaled by its own density. The relaxation operator is the one of the requested
    time whatever was requested before.""",
    ["inputs", "configurations", "histories"],
    "every mesh (2D and 3D where supported), numbering, vertex order, material coefficient and sequence of requested "
    "times",
    """Tests compare end results of a few runs with stored numbers; most coefficients are never varied and 3D
    operators are only checked for one cube.""",
    ["conmech/dynamics/factory", "conmech/dynamics/dynamics.py", "conmech/properties/body_properties.py"],
    [
        ("get_edges_features_list_numba and operator assembly", "conmech/dynamics/factory/_dynamics_factory_2d.py"),
        ("3D assembly", "conmech/dynamics/factory/_dynamics_factory_3d.py"),
        ("Dynamics.relaxation", "conmech/dynamics/dynamics.py"),
    ],
    ["Dynamics.acceleration_operator, elasticity, viscosity, ...", "Dynamics.relaxation(time)"],
    "All unit coefficients of every material tensor (operators are linear in them) on all small meshes, against an "
    "independently written finite element reference.",
)
prop(
    "C07",
    "Loads are the forces integrated over the body and over the Neumann boundary",
    """The load of a body is the sum of an inner and an outer part. The resultant of the inner part is the exact
    integral over the body of the interpolated inner force, distributed to nodes element by element with fixed
    element weights; each Neumann facet gives each of its nodes an equal share of its measure times the outer force
    at that node; contact and Dirichlet facets give none. Forces are evaluated at the node positions and at the
    requested time, and every problem class passes its own forces to its solver; a load that a problem leaves
    undefined is zero.""",
    ["inputs", "configurations"],
    "every mesh, boundary classification, force field and time",
    "Tests use constant forces on rectangles and only see them through solutions.",
    ["conmech/scene/body_forces.py", "conmech/simulations/problem_solver.py", "conmech/scenarios/problems.py"],
    [
        ("BodyForces.integrate", "conmech/scene/body_forces.py"),
        ("get_surface_per_boundary_node_numba", "conmech/scene/body_forces.py"),
    ],
    ["BodyForces.integrate(time)"],
    "The C02 space of meshes and classifications times a basis of force fields and times.",
)
prop(
    "C09",
    "Static and Poisson solutions satisfy the discrete equations with every method",
    """Without contact response, the displacement (temperature) returned for a static (Poisson) problem takes the
    prescribed values on Dirichlet nodes and satisfies the discrete balance equation of the described body, material
    and loads at all other nodes. This holds for direct, Schur and global optimisation methods (3D: direct and
    global), whatever the initial guess, and whichever part of the boundary is declared contact.""",
    ["inputs", "configurations"],
    "every mesh, boundary description, prescribed values, material, load, initial guess and method with a uniquely "
    "solvable system",
    "Tests solve a few rectangles and compare with stored numbers; most combinations are never run.",
    ["conmech/simulations/problem_solver.py", "conmech/solvers", "conmech/dynamics/statement.py"],
    [
        ("Statement.apply_dirichlet_condition", "conmech/dynamics/statement.py"),
        ("schur complement", "conmech/solvers/optimization/schur_complement.py"),
        ("Direct", "conmech/solvers/direct.py"),
    ],
    ["State.displacement", "TemperatureState.temperature"],
    "All meshes x Dirichlet x contact x material x guess combinations; reference solution from an independent finite "
    "element code; tolerances 1e-8 (direct) and 2e-5 (optimisation).",
)
prop(
    "C10",
    "Static contact solutions balance the contact response of the given law",
    """For contact laws with convex potential, the displacement found by the Schur and global methods minimises elastic energy minus work of the loads plus the contact functional (the law's normal and tangential
    potentials, scaled by its bounds, integrated over the contact facets by the three-point rule mid/end/end) among
    displacements with the prescribed Dirichlet values; the direct method solves the balance with the law's response.
    The normal used is the outward one. Claimed for contact facets that do not touch Dirichlet nodes, and for the
    Schur method also when they touch nodes fixed at zero, in 2D (see the known findings for the rest and for 3D).""",
    ["inputs", "configurations"],
    "every 2D mesh, boundary description, prescribed values, material, load, convex contact law, initial guess and "
    "method",
    "Tests run one or two contact laws on a rectangle whose contact side is the bottom.",
    ["conmech/solvers/solver_methods.py", "conmech/solvers/optimization", "conmech/solvers/direct.py"],
    [
        ("make_cost_functional", "conmech/solvers/solver_methods.py"),
        ("make_equation", "conmech/solvers/solver_methods.py"),
    ],
    ["State.displacement"],
    "8 boundary descriptions x 4 loads x 3 laws x methods on named meshes and all 255 sub-complexes; the reference "
    "minimum is computed by an independent semismooth Newton iteration.",
)
prop(
    "C08",
    "Prescribed values hold exactly at every Dirichlet node in every returned state",
    """For every problem class and method, every returned state has exactly the prescribed values on the nodes of
    the Dirichlet boundary: the displacement (static, relaxation), the velocity (quasistatic, dynamic, wave, coupled;
    the displacement of these nodes is the initial one plus time times that velocity), the temperature (Poisson,
    thermal). The electric potential takes the value of every numbered or plain piezo_dirichlet condition on the
    nodes of its boundary, whatever the numbers are and whether or not some of these boundaries are empty. No
    returned field contains NaN or infinity.""",
    ["inputs", "configurations", "histories"],
    "every problem class, method, mesh, Dirichlet description, contact indicator and initial data with a uniquely "
    "solvable system, at every step",
    "Tests prescribe zero (or one constant) on one side of a rectangle and look at stored nodal results.",
    ["conmech/solvers/solver.py", "conmech/dynamics/statement.py", "conmech/mesh/boundaries.py"],
    [
        ("Solver.solve re-imposes Dirichlet values", "conmech/solvers/solver.py"),
        ("Statement.apply_dirichlet_condition, find_dirichlet_conditions", "conmech/dynamics/statement.py"),
    ],
    ["State.displacement/velocity", "TemperatureState.temperature", "PiezoelectricState.electric_potential"],
    "9 problem kinds x methods x 6 meshes (and 3D static/Poisson) x 6 Dirichlet descriptions x 3 contact indicators x "
    "5 sets of electric conditions x 2 initial data, every step.",
)
prop(
    "C11",
    "Every time step solves its discrete evolution equation",
    """Every step of a quasistatic, dynamic, wave (boundary or interior contact) or relaxation simulation solves the
    implicit Euler equation of the described body: inertia, viscosity, elasticity, the relaxation operator of the time
    at the beginning of the step applied to the absement, the loads at the beginning of the step, the prescribed
    values, and the response of the contact law to the new velocity (displacement for relaxation) with the
    displacement at the beginning of the step and the time step passed to the law. The displacement then grows by time step times velocity,
    the absement by time step times displacement, the time by the time step, and displaced nodes are initial nodes plus displacement.
    Claimed for Schur and global methods in 2D for convex laws; contact facets may touch Dirichlet nodes only for Schur with
    nodes that already move as prescribed. The direct method is claimed for one step from rest without contact law.""",
    ["inputs", "configurations", "histories"],
    "every mesh, boundary description, time-dependent load, initial data, time step, material, law and number of steps",
    "Tests compare the final state of one configuration per class with stored numbers; loads that depend on time, "
    "initial data and operators that change with time are hardly used.",
    ["conmech/simulations/problem_solver.py", "conmech/dynamics/statement.py", "conmech/solvers/optimization"],
    [
        ("ProblemSolver.run, solve()", "conmech/simulations/problem_solver.py"),
        ("update_left_hand_side / update_right_hand_side", "conmech/dynamics/statement.py"),
        ("iterate", "conmech/solvers/optimization/schur_complement.py"),
    ],
    ["every state of output_step"],
    "4 kinds x 6 meshes x 9 boundary descriptions x 2 loads x initial data x time steps x 2 materials x laws x methods, "
    "each step compared with an independent reference step (tolerance 2e-4, observed below 2e-5).",
)
prop(
    "C12",
    "Coupled thermal and piezoelectric steps satisfy both balance equations",
    """In every step of a thermo-viscoelastic or piezoelectric (quasistatic or dynamic) simulation the new velocity
    satisfies the momentum balance with the new temperature or potential, the loads at the end of the step, and the
    contact response; the new temperature satisfies the implicit heat equation with the new velocity, and the new
    potential satisfies the charge balance with the new displacement, each with its own prescribed values and second
    contact law. The coupling works in both directions with the described tensors. Claimed in 2D for symmetric
    permittivity and conductivity and coupling weak enough for the fixed-point iteration to converge.""",
    ["inputs", "configurations", "histories"],
    "every mesh, boundary and electric description, coupling coefficient, load, initial data, law pair, method and step",
    "Tests compare one end state per class with stored numbers; a missing coupling term (as in the dynamic "
    "piezoelectric class) went unnoticed.",
    ["conmech/simulations/problem_solver.py", "conmech/dynamics/statement.py", "conmech/scenarios/problems.py"],
    [
        ("find_solution_uzawa", "conmech/simulations/problem_solver.py"),
        ("TemperatureStatement, PiezoelectricStatement", "conmech/dynamics/statement.py"),
    ],
    ["every state of output_step"],
    "3 kinds x 4 meshes x 7 boundary descriptions x 2 electric conditions x laws x methods; every coupling coefficient "
    "alone (direct method). Momentum tolerance 1e-4, second balance 2e-4 (1e-9 direct).",
)
prop(
    "C13",
    "Results do not depend on the output schedule; returned states are snapshots",
    """For every strictly increasing sequence of output steps (list or tuple, including step 0), a time-dependent solver
    returns one state per entry, and each equals the state of that step in every other schedule; without a schedule it
    returns the state after n_steps. Returned states share no data with each other, with the mesh or with the running
    simulation: overwriting one changes neither another one nor a later run.""",
    ["histories"],
    "every problem class, method, schedule and overwritten state",
    "Tests use one schedule per class and never modify what is returned.",
    ["conmech/simulations/problem_solver.py", "conmech/state/state.py"],
    [("output_step handling in solve()", "conmech/simulations/problem_solver.py"), ("State.copy", "conmech/state/state.py")],
    ["return values of solve(..., output_step=...)"],
    "All subsets of the steps 0..4 (thorough 0..5) as schedules for all kinds; every victim state overwritten.",
)
prop(
    "C14",
    "A stopped and resumed simulation equals the uninterrupted one",
    """A membrane (wave) simulation stopped after any steps and resumed from its last state - the returned state itself,
    a copy, or one saved and loaded again, with the same or a new solver - produces the same states as an uninterrupted
    run, including times and time-dependent loads. For the other time-dependent classes, with loads and operators that
    do not depend on time, a new run started from the displacement, velocity, absement and temperature or potential of
    the last state continues the same trajectory.""",
    ["histories"],
    "every way to cut a run into segments and to hand the state over",
    "One test resumes one membrane once at one step.",
    ["conmech/simulations/problem_solver.py", "conmech/state/state.py"],
    [("WaveSolver.solve(state=...)", "conmech/simulations/problem_solver.py"), ("State.save/load/copy", "conmech/state/state.py")],
    ["WaveSolver.solve(state=...)", "solve(initial_...)"],
    "All compositions of 4 (5) steps x all assignments of hand-over methods to the joints.",
)
prop(
    "C15",
    "A used solver answers like a new one, and solvers do not influence each other",
    """Whatever was run on a solver before, and whatever was reassigned or refreshed between runs (solving_method,
    refresh_solvers), its next run returns what a newly made solver returns. Two solvers, of the same or of different
    problems, sharing a problem object or not, can be made and run in any order without changing each other's results.""",
    ["histories"],
    "every sequence of runs, refreshes and reassignments on one solver, and every interleaving of two solvers",
    "Tests make a new solver for each run.",
    ["conmech/simulations/problem_solver.py", "conmech/solvers"],
    [
        ("refresh_solvers, solving_method setter", "conmech/simulations/problem_solver.py"),
        ("solver vectors u, v, t, p, b and current_time", "conmech/solvers/solver.py"),
    ],
    ["solve()"],
    "All sequences of length <= 3 (4) over 5 operations for all kinds and methods; all interleavings of pairs.",
)
prop(
    "C16",
    "A state stays consistent under every sequence of updates, reads and copies",
    """After any sequence of set_displacement, set_velocity, set_temperature, set_electric_potential, stress reads,
    copies and product injections, a state (plain, thermal, piezoelectric) reports the fields that were set, with the
    displacement (absement) integrated over the elapsed time when requested, displaced nodes equal to initial nodes
    plus displacement, the last given time, and a stress computed from the current fields. Copies are independent in
    all fields and products; products are updated on every update of displacement or velocity. A state never shares arrays
    with the vectors its setters were given.""",
    ["histories"],
    "every sequence of operations on states and their copies",
    "Tests call one or two setters and never mix them with copies, products and stress reads.",
    ["conmech/state/state.py", "conmech/state/products/product.py"],
    [("set_displacement, set_velocity, copy, stress", "conmech/state/state.py")],
    ["State attributes and items"],
    "All sequences of length <= 4 (5) over 11 operations, three state classes, against a plain model.",
)
prop(
    "C17",
    "Saving and loading keeps the state; failed or torn files never corrupt anything",
    """A loaded state has the fields, time, mesh, boundaries and products of the saved one. Saving never changes the
    saved state, its body or its solver, whether it succeeds or fails at any point of the writing. Loading a torn file
    (any proper prefix) raises an error instead of returning a state.""",
    ["crash_points", "fault_sequences", "histories"],
    "every problem class, every byte at which writing can fail, every prefix of a file, every short sequence of save, "
    "failing save, step and load",
    "Tests save and load one state once; no test makes a write fail.",
    ["conmech/state/state.py"],
    [("State.save, State.load", "conmech/state/state.py")],
    ["State.save(path)", "State.load(path)"],
    "Write failures injected by the file size limit at enumerated bytes (every byte in the thorough tier).",
)
prop(
    "C18",
    "Products report their quantity at every step and select the requested times",
    """Penetration records the lowest vertical position of the contact nodes (0 without contact nodes); the vertical
    intersection records the first displacement component along the vertical line, from the bottom to the top of the
    body; the limit-points product records the points of that line at which this displacement passes the obstacle level.
    Each has exactly one entry, under the time of the state, for every step made since it was injected, independent of the output schedule
    and preserved across copying, saving and resuming. range(start, stop) returns a new product with exactly the entries with start < time <= stop.""",
    ["inputs", "histories"],
    "every piecewise linear field over a small set of values, line, obstacle, schedule and range",
    "Tests do not cover products at all.",
    ["conmech/state/products"],
    [
        ("Product.range", "conmech/state/products/product.py"),
        ("VerticalIntersection", "conmech/state/products/verticalintersection.py"),
        ("Penetration", "conmech/state/products/penetration.py"),
    ],
    ["Product.data", "Product.range(start, stop)"],
    "All assignments of 3 values to the nodes of small meshes; all sets of 5 times x all ranges; all schedules.",
)
prop(
    "C19",
    "Loads always come from the current sources at the requested time",
    """The load returned for a time is the one of the inner and outer sources currently set, whatever was requested
    before, whether sources were replaced, caches were cleared, the state was saved, or a returned array was modified
    by the caller; loads of different bodies do not mix.""",
    ["histories"],
    "every sequence of source changes, queries, clears and saves",
    "Tests query each body once with sources that never change.",
    ["conmech/scene/body_forces.py"],
    [("BodyForces.integrate and cache", "conmech/scene/body_forces.py")],
    ["BodyForces.integrate(time)"],
    "All sequences of length <= 4 (5) over 10 operations on mechanical and thermal loads; two bodies interleaved.",
)
prop(
    "C20",
    "A method name selects its registered solver for every problem class",
    """For every problem class each documented method name, in any letter case and under any of its aliases, selects the
    solver registered for that class's dynamism (static, quasistatic, relaxation, dynamic), for both step solvers of
    coupled problems, and solving_method reports it. Aliases give identical results. Names that are unknown or not
    available for the dynamism are refused and leave the solver unchanged. A newly registered solver is found exactly for the dynamism it
    was registered for ("*": static, quasistatic and dynamic), and a taken name is refused.""",
    ["configurations", "histories"],
    "every problem class, name, spelling, and sequence of reassignments and registrations",
    "Tests use lower-case canonical names of existing solvers.",
    ["conmech/solvers/_solvers.py", "conmech/solvers", "conmech/simulations/problem_solver.py"],
    [
        ("SolversRegistry.get_by_name, register", "conmech/solvers/_solvers.py"),
        ("solving_method", "conmech/simulations/problem_solver.py"),
    ],
    ["ProblemSolver.solving_method", "SolversRegistry.get_by_name"],
    "9 classes x 6 names x 4 spellings, 9 unknown names, all reassignment sequences of length 2 (3), all registration "
    "sequences of length <= 3.",
)
prop(
    "C21",
    "Solutions do not depend on numbering, position or orientation of the body",
    """Renumbering nodes, reordering elements and their vertices, translating, rotating or reflecting the body (with its
    boundary indicators, loads, initial data and material tensors) transforms the computed solution in the same way,
    for every problem class. Rotations are claimed where the described data can be rotated: not for relaxation tensors,
    and for vector problems with non-zero prescribed values only for exchanging the axes.""",
    ["inputs", "configurations"],
    "every numbering and vertex order of small meshes and every listed motion, problem class, method and law",
    "Tests keep one numbering and one orientation.",
    ["conmech/mesh", "conmech/dynamics", "conmech/solvers"],
    [
        ("reordering", "conmech/mesh/boundaries_factory.py"),
        ("contact normals and contact functional", "conmech/solvers/solver_methods.py"),
    ],
    ["State fields as functions of the point"],
    "All 24 numberings of square2 with vertex orders, cyclic shifts of others, 11 motions in 2D and 6 in 3D x kinds x "
    "methods x laws x boundary descriptions.",
)
prop(
    "C22",
    "Without loads a body never gains energy",
    """Without loads and with zero prescribed values, the energy of the body (kinetic plus elastic, plus thermal or
    electric for coupled problems) does not grow in any step, for any initial data, any time step and any
    contact law whose response opposes the motion.""",
    ["histories", "inputs"],
    "every mesh, boundary description, initial displacement and velocity, time step and step number",
    "Stored numbers of a few forced runs say nothing about long unforced histories.",
    ["conmech/dynamics", "conmech/simulations/problem_solver.py", "conmech/solvers"],
    [("time stepping", "conmech/simulations/problem_solver.py"), ("statements", "conmech/dynamics/statement.py")],
    ["every state of output_step"],
    "6 kinds x meshes x setups x laws x 3 time steps x initial data incl. every single nodal value, 5-8 (20) steps.",
)
prop(
    "C23",
    "Contact laws respond as parameterised, each with its own parameters",
    """A law made by a factory (slope/ReLU, constant, damped normal compliance on the boundary or in the interior) has, for every
    argument, the potential, response and bound given by its own parameters, on the class and on instances, interpreted
    and compiled, whatever other laws were made. A law that defines only its normal part has unit bounds and
    no friction. A membrane under a damped law moves accordingly while it stays in contact and freely while it stays away.""",
    ["inputs", "histories"],
    "every parameter set, argument and order of creation",
    "Tests use one slope at a time inside whole simulations.",
    ["conmech/dynamics/contact", "conmech/solvers/solver_methods.py"],
    [
        ("make_slope_contact_law", "conmech/dynamics/contact/relu_slope_contact_law.py"),
        ("make_damped_norm_compl", "conmech/dynamics/contact/damped_normal_compliance.py"),
    ],
    ["potential_normal_direction, subderivative_normal_direction, normal_bound", "State.velocity"],
    "All arguments of a 9x9x4 grid with the kinks and zero, all ordered pairs of parameters; membranes in full contact.",
)
prop(
    "C24",
    "Operator matrices obey matrix algebra and never change their operands",
    """Sums, products with numbers, matrices and vectors, transposition, copies, indexing and blocks of
    operator matrices equal the same operation on plain arrays, keep the class of the matrix, and leave operands
    unchanged and unshared; in-place operators change exactly their left operand. Matrices of different spaces are not added.""",
    ["histories"],
    "every sequence of operations on matrices of all spaces",
    "Tests call each operator once.",
    ["conmech/struct/stiffness_matrix.py"],
    [("operators of StiffnessMatrix", "conmech/struct/stiffness_matrix.py")],
    ["SM1, SM2, SM3, SM1to2, SM1to3"],
    "All sequences of 3 (4) operations over 13 pure and 5 in-place operators.",
)
prop(
    "C25",
    "After density updates the solver answers for the last density",
    """After any sequence of update_density calls (including None, which restores unit density) with solves in between
    or not, the non-homogeneous static solver returns the solution for the last element densities, keeps its method,
    and does not modify the given arrays.""",
    ["histories", "inputs"],
    "every sequence of densities, mesh, boundary description, method and initial guess",
    "One test updates the density and compares with stored numbers.",
    ["conmech/simulations/problem_solver.py", "conmech/dynamics/dynamics.py"],
    [("NonHomogenousSolver.update_density", "conmech/simulations/problem_solver.py"), ("reinitialize_matrices", "conmech/dynamics/dynamics.py")],
    ["NonHomogenousSolver.solve"],
    "All sequences of length <= 3 (4) over 5 densities, solving after each or only at the end.",
)
prop(
    "C26",
    "The chosen minimiser and its options do not change the solution",
    """For contact problems solved by the Schur complement or global optimisation, every convergent
    minimiser name (BFGS, L-BFGS-B, Powell, SLSQP, trust-constr, Nelder-Mead on small problems, in any letter case)
    and every explicit maxiter, tol or verbose option gives the same solution, step after step and whatever options
    earlier calls on the solver were given: the minimiser of the energy under the Dirichlet conditions. Minimisers that
    are given the gradient ("gradiented ...") are claimed for laws without response (see the known finding).""",
    ["configurations", "inputs"],
    "every minimiser and option, problem kind, mesh, boundary description, law and initial state",
    "Tests use one minimiser per example and compare with stored numbers.",
    ["conmech/solvers/optimization", "conmech/simulations/problem_solver.py"],
    [("Optimization._solve_impl", "conmech/solvers/optimization/optimization.py"), ("ProblemSolver.find_solution", "conmech/simulations/problem_solver.py")],
    ["ProblemSolver.solve(method=, maxiter=, tol=, verbose=)"],
    "The full product of minimisers/options, 6 problem kinds, 2 (3) meshes, 3 boundary descriptions, laws and initial states.",
)
prop(
    "C27",
    "Pictures show exactly the state they are asked for and change nothing",
    """A picture of a body shows the edges of all elements at the original and at the displaced positions, the contact,
    Dirichlet and Neumann facets in their own colours at the displaced positions, the outer forces of the time of the
    state at the Neumann nodes, the normal stress at the contact nodes, and the current values of the requested field
    over the displaced body, all inside the axes; without colours it marks every Dirichlet node by an arrow. This also
    holds for every further picture made by the same drawer. Limits and arrows given by the user are kept. A plot of limit points shows every recorded point once and no other,
    whatever their number; membranes in columns and intersections show the displacement of each given state, in order.
    Drawing and saving change neither state nor mesh; a picture is saved exactly to the file named by the configuration,
    name and format, other files stay. A configuration creates its output directory and refuses to show and save at
    once.""",
    ["inputs", "histories"],
    "every mesh, boundary description, displacement, style and sequence of pictures",
    "Tests never look at a drawn picture.",
    ["conmech/plotting/drawer.py", "conmech/plotting/membrane.py", "conmech/helpers/config.py"],
    [("Drawer.do_draw", "conmech/plotting/drawer.py"), ("plot_limit_points, plot_in_columns", "conmech/plotting/membrane.py"), ("Config.init", "conmech/helpers/config.py")],
    ["artists of the drawn axes", "files written by Drawer.draw", "directories made by Config.init"],
    "4 meshes, 5 boundary descriptions, 6 styles, every pair of pictures; all sequences of 2 (3) saves; 60 sets of points.",
)
PROPS.sort(key=lambda p: p["id"])
