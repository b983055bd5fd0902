"""Contact laws: the class handed to conmech and, separately, the responses used by the reference.

Reference normal(v, u, dt) -> (response, derivative), tangential(v_vec, u_vec, dt) -> (response vector, stiffness).
All laws are convex and piecewise quadratic, so the reference minimum is found exactly by an active set iteration.
"""
import numpy as np


class Law:
    def __init__(self, name, make, normal, tangential=None):
        self.name, self._make, self.normal, self.tangential = name, make, normal, tangential

    def conmech(self):
        return self._make()


def _base():
    from conmech.dynamics.contact.contact_law import DirectContactLaw, PotentialOfContactLaw

    return PotentialOfContactLaw, DirectContactLaw


def zero():
    from mc.problems import zero_law

    return Law("zero", lambda: zero_law()(), lambda v, u, dt: (0.0, 0.0))


def spring(k=3.0):
    from mc.problems import spring_law

    return Law("spring", lambda: spring_law(k)(), lambda v, u, dt: (k * v, k))


def relu(k=5.0):
    def make():
        from conmech.dynamics.contact.relu_slope_contact_law import make_slope_contact_law

        return make_slope_contact_law(slope=k)()

    return Law("relu", make, lambda v, u, dt: (k * v, k) if v > 0 else (0.0, 0.0))


def compliance(k=4.0, gap=0.02):
    """Response k * max(0, u + dt v - gap)."""

    def make():
        P, D = _base()

        class Compliance(P):
            @staticmethod
            def potential_normal_direction(var_nu, static_displacement_nu, dt):
                d = static_displacement_nu + dt * var_nu - gap
                if d <= 0:
                    return 0.0
                return 0.5 * k * d**2 / dt

        return Compliance()

    def normal(v, u, dt):
        d = u + dt * v - gap
        return (k * d, k * dt) if d > 0 else (0.0, 0.0)

    return Law("compliance", make, normal)


def friction(k=5.0, f=2.0, nb=1.5, tb=0.5):
    """ReLU response scaled by nb, viscous friction f scaled by tb."""

    def make():
        P, D = _base()

        class Friction(P):
            @staticmethod
            def normal_bound(var_nu, static_displacement_nu, dt):
                return nb

            @staticmethod
            def tangential_bound(var_nu, static_displacement_nu, dt):
                return tb

            @staticmethod
            def potential_normal_direction(var_nu, static_displacement_nu, dt):
                if var_nu <= 0:
                    return 0.0
                return 0.5 * k * var_nu**2

            @staticmethod
            def potential_tangential_direction(var_tau, static_displacement_tau, dt):
                return 0.5 * f * np.sum(var_tau * var_tau)

        return Friction()

    return Law(
        "friction",
        make,
        lambda v, u, dt: (nb * k * v, nb * k) if v > 0 else (0.0, 0.0),
        lambda v, u, dt: (tb * f * v, tb * f),
    )


def belt(k=5.0, f=2.0, nb=1.5, tb=0.5, w=(0.3, -0.2)):
    """As friction, but on a belt that moves with velocity w: the tangential response has a direction."""
    w0, w1 = w

    def make():
        P, D = _base()

        class Belt(P):
            @staticmethod
            def normal_bound(var_nu, static_displacement_nu, dt):
                return nb

            @staticmethod
            def tangential_bound(var_nu, static_displacement_nu, dt):
                return tb

            @staticmethod
            def potential_normal_direction(var_nu, static_displacement_nu, dt):
                if var_nu <= 0:
                    return 0.0
                return 0.5 * k * var_nu**2

            @staticmethod
            def potential_tangential_direction(var_tau, static_displacement_tau, dt):
                return 0.5 * f * ((var_tau[0] - w0) ** 2 + (var_tau[1] - w1) ** 2)

        return Belt()

    return Law(
        "belt",
        make,
        lambda v, u, dt: (nb * k * v, nb * k) if v > 0 else (0.0, 0.0),
        lambda v, u, dt: (tb * f * (v - np.array(w)), tb * f),
    )


def stick(f=3.0, k=2.0):
    """Tangential spring on the displacement reached at the end of the step, normal spring."""

    def make():
        P, D = _base()

        class Stick(P):
            @staticmethod
            def potential_normal_direction(var_nu, static_displacement_nu, dt):
                return 0.5 * k * (static_displacement_nu + dt * var_nu) ** 2 / dt

            @staticmethod
            def potential_tangential_direction(var_tau, static_displacement_tau, dt):
                w = static_displacement_tau + dt * var_tau
                return 0.5 * f * np.sum(w * w) / dt

        return Stick()

    return Law(
        "stick",
        make,
        lambda v, u, dt: (k * (u + dt * v), k * dt),
        lambda v, u, dt: (f * (u + dt * v), f * dt),
    )


def interior(k=6.0, gap=0.02):
    """Compliance of an obstacle under the whole membrane."""

    def make():
        from conmech.dynamics.contact.interior_contact_law import InteriorContactLaw

        class Interior(InteriorContactLaw):
            @staticmethod
            def potential_normal_direction(var_nu, static_displacement_nu, dt):
                d = static_displacement_nu + dt * var_nu - gap
                if d <= 0:
                    return 0.0
                return 0.5 * k * d**2 / dt

        return Interior()

    def normal(v, u, dt):
        d = u + dt * v - gap
        return (k * d, k * dt) if d > 0 else (0.0, 0.0)

    law = Law("interior", make, normal)
    law.interior = True
    return law


def coupled(k=5.0, f=2.0, nb=1.2, ns=3.0, tb=0.4, tv=0.6):
    """Both bounds depend on the normal variable and displacement (on one side only, so that signs matter): the
    friction bound grows with the normal velocity into the obstacle."""

    def make():
        P, D = _base()

        class Coupled(P):
            @staticmethod
            def normal_bound(var_nu, static_displacement_nu, dt):
                return nb + ns * max(0.0, static_displacement_nu) ** 2

            @staticmethod
            def tangential_bound(var_nu, static_displacement_nu, dt):
                return tb + tv * max(0.0, var_nu) ** 2 + ns * max(0.0, -static_displacement_nu) ** 2

            @staticmethod
            def potential_normal_direction(var_nu, static_displacement_nu, dt):
                if var_nu <= 0:
                    return 0.0
                return 0.5 * k * var_nu**2

            @staticmethod
            def potential_tangential_direction(var_tau, static_displacement_tau, dt):
                return 0.5 * f * np.sum(var_tau * var_tau)

        return Coupled()

    def joint(vn, vt, un, ut, dt):
        """Gradient (normal, tangential) and Hessian (nn, nt, tt) of the product form of the functional."""
        on = 1.0 if vn > 0 else 0.0
        bn, bt = nb + ns * max(0.0, un) ** 2, tb + tv * on * vn**2 + ns * max(0.0, -un) ** 2
        sq = 0.5 * f * float(vt @ vt)
        return (
            bn * k * vn * on + 2 * tv * on * vn * sq,
            bt * f * vt,
            bn * k * on + 2 * tv * on * sq,
            2 * tv * on * vn * f * vt,
            bt * f,
        )

    law = Law("coupled", make, lambda v, u, dt: ((nb + ns * max(0.0, u) ** 2) * k * v, 0.0) if v > 0 else (0.0, 0.0))
    law.joint = joint
    return law


def coupled_static():
    """The static problem has no previous displacement: bounds depend on the unknown only."""
    return coupled(ns=0.0)


LAWS = {"coupled_static": coupled_static, "coupled": coupled, "interior": interior, "zero": zero, "spring": spring, "relu": relu, "compliance": compliance, "friction": friction, "belt": belt, "stick": stick}
