"""Small time-dependent runs used by the history checks (C13, C14, C15, C18)."""
import numpy as np

from mc import laws, meshref, problems as pb, timespace as ts

KINDS = ["quasistatic", "dynamic", "wave", "relaxation", "temperature", "piezo_q", "piezo_d"]
DT = 0.25


def make(kind, method, mesh="square2", law="relu", setup="bottom/top tilted", load="push", problem_only=False, dt=DT, arrays=None, **over):
    arrays = meshref.get_mesh(mesh) if arrays is None else arrays
    contact, dirichlet, value, _ = ts.SETUPS[setup]
    fi, fo = ts.loads(kind, load)
    bd = {"contact": contact, "dirichlet": dirichlet if value is None else (dirichlet, value)}
    if kind.startswith("piezo"):
        bd["piezo_dirichlet_0"] = (lambda x: x[1] == 0, lambda x: 0.5 + x[:, 0])
    direct = method == "direct"
    scalar = kind in ("wave", "poisson")
    kw = dict(
        inner=fi,
        outer=fo,
        law=None if direct and (scalar or kind == "dynamic") else laws.LAWS[law]().conmech(),
        law2=None if direct else pb.zero_law()(),
        dt=dt,
    )
    if kind in ("temperature", "piezo_d") and direct:
        kw["law"] = None
    if kind == "temperature":
        kw["te"] = 0.2 * pb.TE
    if kind.startswith("piezo"):
        kw["pz"] = 0.2 * pb.PZ
    if "conmech_law" in over:
        law = over.pop("conmech_law")
        kw["law"] = None if kw["law"] is None else law
    kw.update(over)
    if problem_only:
        return pb.make_problem(kind, arrays, bd, **kw)
    return pb.make_solver(kind, arrays, bd, method, **kw)


def start(kind, init):
    data = ts.initial(kind, init)
    if init != "rest" and kind in ("temperature", "piezo_q", "piezo_d"):
        data["s0"] = lambda x: 0.4 * x[:, 0] - 0.3 * x[:, 1] + 0.1
    return data


def fields(kind, s):
    """Everything a state reports, as one flat copy."""
    out = [
        np.array(s.displacement, dtype=float).ravel(),
        np.array(s.velocity, dtype=float).ravel(),
        np.array(s.absement, dtype=float).ravel(),
        np.array(s.displaced_nodes, dtype=float).ravel(),
        np.array([s.time], dtype=float),
    ]
    if kind in ("temperature", "poisson"):
        out.append(np.array(s.temperature, dtype=float).ravel())
    if kind.startswith("piezo"):
        out.append(np.array(s.electric_potential, dtype=float).ravel())
    return np.concatenate(out)


def methods(kind, tier):
    out = ["schur"]
    if tier == "thorough" or kind in ("dynamic", "relaxation"):
        out.append("global")
    if kind in ("temperature", "piezo_d"):
        out.append("direct")
    return out
