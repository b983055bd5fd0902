"""Helpers of the demonstration: small meshes, problems and solvers of conmech from plain parameters."""
import contextlib
import io
import sys

import numpy as np

TE = np.array([[0.5, 0.1], [0.2, 0.7]])
TC = np.array([[1.0, 0.1], [0.1, 2.0]])
PZ = np.array([[[0.5, 0.1], [0.2, -0.3]], [[0.4, -0.2], [0.1, 0.6]]])
PM = np.array([[1.0, 0.2], [0.1, 2.0]])
RL = np.array([[[0.5, 0.1], [0.2, 0.4]], [[0.3, 0.2], [0.1, 0.6]]])


def description(nodes, elements, initial_position=None):
    from conmech.mesh.zoo.raw_mesh import RawMesh
    from conmech.properties.mesh_description import MeshDescription

    class Arrays(MeshDescription):
        def build(self):
            return RawMesh(
                nodes=np.array(nodes, dtype=float), elements=np.array(elements, dtype=np.int64)
            )

    return Arrays(initial_position=initial_position)


def grid(xs, ys):
    nodes = np.array([(x, y) for y in ys for x in xs], dtype=float)
    elements = []
    n = len(xs)
    for j in range(len(ys) - 1):
        for i in range(n - 1):
            a, b, c, d = j * n + i, j * n + i + 1, (j + 1) * n + i + 1, (j + 1) * n + i
            elements += [(a, b, c), (a, c, d)]
    return nodes, np.array(elements)


def make_mesh(arrays, **bd):
    from conmech.mesh.boundaries_description import BoundariesDescription
    from conmech.mesh.mesh import Mesh

    return Mesh(mesh_descr=description(*arrays), boundaries_description=BoundariesDescription(**bd))


def make_solver(kind, arrays, bd, method, law=None, law2=None, inner=None, outer=None, mu=4.0, la=3.0, th=1.0,
                ze=2.0, dt=0.25, c=1.5, te=TE, tc=TC, pz=PZ, pm=PM, relax=lambda t: RL):
    from conmech.mesh.boundaries_description import BoundariesDescription
    from conmech.scenarios import problems as pr
    from conmech.simulations import problem_solver as ps

    width = 1 if kind in ("wave", "poisson") else arrays[0].shape[1]
    cls, solver = {
        "static": (pr.StaticDisplacementProblem, ps.StaticSolver),
        "density": (pr.StaticDisplacementProblem, ps.NonHomogenousSolver),
        "poisson": (pr.PoissonProblem, ps.PoissonSolver),
        "quasistatic": (pr.QuasistaticDisplacementProblem, ps.TimeDependentSolver),
        "dynamic": (pr.DynamicDisplacementProblem, ps.TimeDependentSolver),
        "relaxation": (pr.RelaxationQuasistaticProblem, ps.QuasistaticRelaxation),
        "wave": (pr.ContactWaveProblem, ps.WaveSolver),
        "temperature": (pr.TemperatureDynamicProblem, ps.TemperatureTimeDependentSolver),
        "piezo_q": (pr.PiezoelectricQuasistaticProblem, ps.PiezoelectricTimeDependentSolver),
        "piezo_d": (pr.PiezoelectricDynamicProblem, ps.PiezoelectricTimeDependentSolver),
    }[kind]

    def force(f):
        f = f or (lambda x, t: np.zeros(width))
        return staticmethod(lambda x, t=None: np.asarray(f(x, t), dtype=float))

    if kind == "poisson":
        attrs = {"internal_temperature": force(inner), "outer_temperature": force(outer), "contact_law_2": law2}
    else:
        attrs = {"inner_forces": force(inner), "outer_forces": force(outer)}
    if kind not in ("static", "density", "poisson"):
        attrs.update(time_step=dt, th_coef=th, ze_coef=ze)
    if kind == "temperature":
        attrs.update(thermal_expansion=te, thermal_conductivity=tc, contact_law_2=law2)
    if kind in ("piezo_q", "piezo_d"):
        attrs.update(piezoelectricity=pz, permittivity=pm, contact_law_2=law2)
    if kind == "relaxation":
        attrs.update(relaxation=staticmethod(relax))
    problem = type("P_" + kind, (cls,), attrs)
    descr, boundaries = description(*arrays), BoundariesDescription(**bd)
    if kind == "poisson":
        problem = problem(descr, boundaries)
    elif kind == "wave":
        problem = problem(descr, boundaries, c, law)
    else:
        problem = problem(descr, boundaries, mu, la, law)
    return solver(problem, method)


def potential_law(k=0.0, f=0.0):
    """Normal response k * max(v, 0), tangential response f * v."""
    from conmech.dynamics.contact.contact_law import PotentialOfContactLaw

    class Law(PotentialOfContactLaw):
        @staticmethod
        def potential_normal_direction(var_nu, static_displacement_nu, dt):
            if var_nu <= 0:
                return 0.0
            return 0.5 * k * var_nu**2

        @staticmethod
        def potential_tangential_direction(var_tau, static_displacement_tau, dt):
            return 0.5 * f * np.sum(var_tau * var_tau)

    return Law()


def run(solver, kind, steps=1, output_step=None, u0=None, v0=None, s0=None, **kw):
    """Results of a solve, always as a list of states."""
    vec = lambda x: np.zeros_like(x)
    one = lambda x: np.zeros(len(x))
    with contextlib.redirect_stdout(io.StringIO()):
        if kind == "poisson":
            return [solver.solve(**kw)]
        if kind in ("static", "density"):
            return [solver.solve(initial_displacement=u0 or vec, **kw)]
        args = dict(n_steps=steps, output_step=output_step, initial_displacement=u0 or vec, **kw)
        if kind == "relaxation":
            args["initial_absement"] = v0 or vec
        else:
            args["initial_velocity"] = v0 or vec
        if kind == "temperature":
            args["initial_temperature"] = s0 or one
        if kind.startswith("piezo"):
            args["initial_electric_potential"] = s0 or one
        return list(solver.solve(**args))


def check(ok, message):
    if not ok:
        print("FAILED:", message)
        sys.exit(1)
