"""Boundary descriptions, loads and initial data shared by the time-dependent checks."""
import numpy as np

SETUPS = {
    # name: (contact, dirichlet, value, contact facets may touch Dirichlet nodes)
    "bottom/top": (lambda x: x[1] == 0, lambda x: x[1] >= 1.0, None, False),
    "bottom/top moved": (lambda x: x[1] == 0, lambda x: x[1] >= 1.0, lambda x: np.full(len(x), -0.1), False),
    "bottom/top tilted": (lambda x: x[1] == 0, lambda x: x[1] >= 1.0, lambda x: 0.1 - 0.15 * x[:, 0], False),
    "right/left": (lambda x: x[0] >= 1.0, lambda x: x[0] == 0, None, False),
    "left/right": (lambda x: x[0] == 0, lambda x: x[0] >= 1.0, lambda x: -0.2 * x[:, 1], False),
    "none/left": (lambda x: False, lambda x: x[0] == 0, lambda x: 0.05 * x[:, 1], False),
    "bottom/none": (lambda x: x[1] == 0, lambda x: False, None, False),
    "bottom/left": (lambda x: x[1] == 0, lambda x: x[0] == 0, None, True),
    "all/left": (lambda x: True, lambda x: x[0] == 0, None, True),
}


def _push(x, t):
    return np.array([0.4 * (1 + t) + 0.2 * x[1], -1.0 + 3.0 * t])


def _push_o(x, t):
    return np.array([0.3 * t, 0.2 * x[0] - t])


def _swing(x, t):
    return np.array([x[1] - 0.5, 0.5 - x[0]]) * (1 - 4 * t) + np.array([0.1, -0.6])


def _swing_o(x, t):
    return np.array([-0.2, 0.1 + 0.5 * t * x[0]])


def _zero(x, t):
    return np.zeros(2)


LOADS = {"push": (_push, _push_o), "swing": (_swing, _swing_o), "none": (_zero, _zero)}


def u_bent(x):
    return np.column_stack((0.05 * x[:, 1] - 0.02 * x[:, 0], 0.04 * x[:, 0] - 0.03 * x[:, 1] ** 2))


def v_spin(x):
    return np.column_stack((0.3 * x[:, 1] - 0.1, 0.2 - 0.25 * x[:, 0]))


def b_past(x):
    return np.column_stack((0.1 * x[:, 1], -0.2 * x[:, 0] + 0.05))


def first(f):
    """Only the first component (membranes)."""

    def g(x):
        out = np.array(f(x))
        out[:, 1] = 0
        return out

    return g


INITIAL = {
    "rest": (None, None, None),
    "bent": (u_bent, None, None),
    "moving": (u_bent, v_spin, b_past),
    "spun": (None, v_spin, b_past),
}


def initial(kind, name):
    u, v, b = INITIAL[name]
    if kind == "wave":
        u, v = (None if u is None else first(u)), (None if v is None else first(v))
    return {"u0": u, "v0": v, "b0": b}


def loads(kind, name):
    fi, fo = LOADS[name]
    if kind in ("wave", "poisson"):
        return (lambda x, t: fi(x, t)[:1]), (lambda x, t: fo(x, t)[:1])
    return fi, fo


MATERIAL = dict(mu=4.0, la=3.0, th=1.0, ze=2.0)
SOFT = dict(mu=1.0, la=0.5, th=0.3, ze=0.2)
