"""Problems and solvers of conmech built from plain parameters."""
import numpy as np

from mc import meshes

KINDS = ["static", "poisson", "quasistatic", "dynamic", "relaxation", "wave", "temperature", "piezo_q", "piezo_d"]


def zero_law():
    from conmech.dynamics.contact.contact_law import DirectContactLaw, PotentialOfContactLaw

    class ZeroLaw(PotentialOfContactLaw, DirectContactLaw):
        @staticmethod
        def potential_normal_direction(var_nu, static_displacement_nu, dt):
            return 0.0

        @staticmethod
        def subderivative_normal_direction(var_nu, static_displacement_nu, dt):
            return 0.0

    return ZeroLaw


def spring_law(k):
    """Response k * v in both directions."""
    from conmech.dynamics.contact.contact_law import DirectContactLaw, PotentialOfContactLaw

    class SpringLaw(PotentialOfContactLaw, DirectContactLaw):
        @staticmethod
        def potential_normal_direction(var_nu, static_displacement_nu, dt):
            return 0.5 * k * var_nu**2

        @staticmethod
        def subderivative_normal_direction(var_nu, static_displacement_nu, dt):
            return k * var_nu

    return SpringLaw


TE = np.array([[0.5, 0.1], [0.2, 0.7]])
TC = np.array([[1.0, 0.1], [0.1, 2.0]])
PZ = np.array([[[0.5, 0.1], [0.2, -0.3]], [[0.4, -0.2], [0.1, 0.6]]])
PM = np.array([[1.0, 0.2], [0.1, 2.0]])
RL = np.array([[[0.5, 0.1], [0.2, 0.4]], [[0.3, 0.2], [0.1, 0.6]]])


def relaxation(t):
    return RL * (1.0 + 0.5 * t)


def make_problem(
    kind,
    arrays,
    bd,
    law=None,
    law2=None,
    inner=None,
    outer=None,
    mu=4.0,
    la=3.0,
    th=1.0,
    ze=2.0,
    dt=0.25,
    c=1.5,
    te=TE,
    tc=TC,
    pz=PZ,
    pm=PM,
    relax=relaxation,
    mesh_descr=None,
):
    from conmech.mesh.boundaries_description import BoundariesDescription
    from conmech.scenarios import problems as pr

    d = arrays[0].shape[1] if arrays is not None else 2
    width = 1 if kind in ("wave", "poisson") else d
    descr = mesh_descr if mesh_descr is not None else meshes.array_description(*arrays)
    boundaries = BoundariesDescription(**bd)
    cls = {
        "static": pr.StaticDisplacementProblem,
        "poisson": pr.PoissonProblem,
        "quasistatic": pr.QuasistaticDisplacementProblem,
        "dynamic": pr.DynamicDisplacementProblem,
        "relaxation": pr.RelaxationQuasistaticProblem,
        "wave": pr.ContactWaveProblem,
        "temperature": pr.TemperatureDynamicProblem,
        "piezo_q": pr.PiezoelectricQuasistaticProblem,
        "piezo_d": pr.PiezoelectricDynamicProblem,
    }[kind]
    fi = inner or (lambda x, t: np.zeros(width))
    fo = outer or (lambda x, t: np.zeros(width))

    def f_in(x, t=None):
        return np.asarray(fi(x, t), dtype=float)

    def f_out(x, t=None):
        return np.asarray(fo(x, t), dtype=float)

    if kind == "poisson":
        attrs = {"internal_temperature": staticmethod(f_in), "outer_temperature": staticmethod(f_out)}
    else:
        attrs = {"inner_forces": staticmethod(f_in), "outer_forces": staticmethod(f_out)}
    for source, name in zip((inner, outer), list(attrs)):
        if isinstance(source, str):  # "default": the one of the problem class
            del attrs[name]
    if kind not in ("static", "poisson"):
        attrs.update(time_step=dt, th_coef=th, ze_coef=ze)
    if kind == "temperature":
        attrs.update(thermal_expansion=te, thermal_conductivity=tc, contact_law_2=law2)
    if kind in ("piezo_q", "piezo_d"):
        attrs.update(piezoelectricity=pz, permittivity=pm, contact_law_2=law2)
    if kind == "relaxation":
        attrs.update(relaxation=staticmethod(relax))
    if kind == "poisson":
        attrs["contact_law_2"] = law2
    P = type("P_" + kind, (cls,), attrs)
    if kind == "poisson":
        return P(descr, boundaries)
    if kind == "wave":
        return P(descr, boundaries, c, law)
    return P(descr, boundaries, mu, la, law)


def make_solver(kind, arrays, bd, method, **kw):
    from conmech.simulations import problem_solver as ps

    problem = make_problem(kind, arrays, bd, **kw)
    cls = {
        "static": ps.StaticSolver,
        "poisson": ps.PoissonSolver,
        "quasistatic": ps.TimeDependentSolver,
        "dynamic": ps.TimeDependentSolver,
        "relaxation": ps.QuasistaticRelaxation,
        "wave": ps.WaveSolver,
        "temperature": ps.TemperatureTimeDependentSolver,
        "piezo_q": ps.PiezoelectricTimeDependentSolver,
        "piezo_d": ps.PiezoelectricTimeDependentSolver,
    }[kind]
    return cls(problem, method)


def zeros_like(x):
    return np.zeros_like(x)


def zeros(x):
    return np.zeros(len(x))


def solve(kind, solver, n_steps=1, u0=None, v0=None, s0=None, b0=None, output_step=None, state=None, **kw):
    """A list of states (one for static problems); u0, v0, b0: (nodes) -> (n, d); s0: (nodes) -> (n,)."""
    from mc.core import quiet

    u0 = zeros_like if u0 is None else u0
    v0, b0, s0 = v0 or zeros_like, b0 or zeros_like, s0 or zeros
    with quiet():
        if kind == "static":
            return [solver.solve(initial_displacement=u0, **kw)]
        if kind == "poisson":
            return [solver.solve(**kw)]
        args = dict(n_steps=n_steps, output_step=output_step, initial_displacement=u0, **kw)
        if kind == "relaxation":
            return solver.solve(initial_absement=b0, **args)
        args["initial_velocity"] = v0
        if kind == "temperature":
            return list(solver.solve(initial_temperature=s0, **args))
        if kind in ("piezo_q", "piezo_d"):
            return list(solver.solve(initial_electric_potential=s0, **args))
        if kind == "wave" and state is not None:
            args["state"] = state
        return solver.solve(**args)


def vec(field):
    """(n, d) -> component-major vector."""
    return np.asarray(field, dtype=float).T.reshape(-1)
