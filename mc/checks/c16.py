"""C16: a state stays consistent under every sequence of updates, reads and copies."""
import itertools

import numpy as np

from mc import meshref, problems as pb, timespace as ts

MODES = ["py"]
CHUNK = 1
CLASSES = ["State", "TemperatureState", "PiezoelectricState"]
OPS = ["disp", "disp+abs", "vel", "vel+disp", "scalar", "stress", "to copy", "keep copy", "scribble", "reuse", "product", "same time", "slow"]


def bounds(tier):
    return {
        "classes": CLASSES,
        "operations": OPS,
        "sequences": "all of length <= " + ("5" if tier == "thorough" else "4"),
        "long sequences": "every word of length <= 2 repeated to 24 operations",
        "meshes": ["tri"] + (["tet (length <= 3)"]),
    }


def jobs(tier, mode):
    depth = 5 if tier == "thorough" else 4
    for cls in CLASSES:
        for a, b in itertools.product(OPS, repeat=2):
            yield {"cls": cls, "mesh": "tri", "prefix": [a, b], "depth": depth}
        for a in OPS:
            yield {"cls": cls, "mesh": "tri", "prefix": [a], "depth": 2, "repeat": 24}
            yield {"cls": cls, "mesh": "tet", "prefix": [a], "depth": 3}


class Model:
    """What the state must report."""

    def __init__(self, nodes):
        self.nodes = nodes
        self.u = np.zeros(nodes.shape)
        self.v = np.zeros(nodes.shape)
        self.b = np.zeros(nodes.shape)
        self.s = np.zeros(len(nodes))
        self.t = 0.0
        self.log = None

    def copy(self):
        m = Model(self.nodes)
        m.u, m.v, m.b, m.s, m.t = self.u.copy(), self.v.copy(), self.b.copy(), self.s.copy(), self.t
        m.log = None if self.log is None else list(self.log)
        return m


def law(velocity, displacement, absement, setup, elements, nodes, time):
    d = nodes.shape[1]
    x = float(np.sum(displacement) + 10 * np.sum(velocity) + 100 * np.sum(absement) + 1000 * time + setup)
    return np.array([np.arange(d * d, dtype=float).reshape(d, d) + x + e for e in range(len(elements))])


def body_of(name):
    bd = {"contact": lambda x: x[1] == 0, "dirichlet": lambda x: x[0] == 0}
    return pb.make_solver("static", meshref.get_mesh(name), bd, "direct").body


_cache = {}


def run(job, ctx):
    from conmech.state import state as st
    from conmech.state.products.product import Product

    class Recorder(Product):
        def __init__(self):
            super().__init__("recorder")

        def update(self, state):
            self.data[state.time] = (state.displacement.copy(), state.velocity.copy())

    ctx.sample(job)
    body = body_of(job["mesh"])
    nodes = np.array(body.mesh.nodes, dtype=float)
    n, d = nodes.shape
    cls = getattr(st, job["cls"])
    for length in range(len(job["prefix"]), job["depth"] + 1):
        for rest in itertools.product(OPS, repeat=length - len(job["prefix"])):
            seq = job["prefix"] + list(rest)
            if "repeat" in job:
                seq = (seq * job["repeat"])[: job["repeat"]]
            play(ctx, cls, body, nodes, seq, Recorder, check_all=length == job["depth"])


def equal(ctx, cls, s, m, what, seq):
    k = tuple(seq)
    ctx.close(s.displacement, m.u, f"displacement {what}", 1e-12, seq=k)
    ctx.close(s.velocity, m.v, f"velocity {what}", 1e-12, seq=k)
    ctx.close(s.absement, m.b, f"absement {what}", 1e-12, seq=k)
    ctx.close(s.displaced_nodes, m.nodes + m.u, f"position {what}", 1e-12, seq=k)
    ctx.close(s.time, m.t, f"time {what}", 1e-12, seq=k)
    ctx.close(s["displacement"], m.u, f"item {what}", 1e-12, seq=k)
    ctx.close(s[1], m.v, f"item {what}", 1e-12, seq=k)
    if cls.__name__ == "TemperatureState":
        ctx.close(s["temperature"], m.s, f"temperature {what}", 1e-12, seq=k)
    if cls.__name__ == "PiezoelectricState":
        ctx.close(s.electric_potential, m.s, f"potential {what}", 1e-12, seq=k)
    if m.log is not None:
        p = s.products.get("recorder")
        if ctx.check(p is not None, f"product lost {what}", seq=k):
            want = {}
            for t, u, v in m.log:
                want[t] = (u, v)
            if ctx.check(sorted(p.data) == sorted(want), f"times of a product {what}", seq=k, got=sorted(p.data)):
                for t, (u, v) in want.items():
                    ctx.close(p.data[t][0], u, f"product entry {what}", 1e-12, seq=k)
                    ctx.close(p.data[t][1], v, f"product entry {what}", 1e-12, seq=k)
    else:
        ctx.check("recorder" not in s.products, f"foreign product {what}", seq=k)


def read_stress(ctx, s, m, elements, seq):
    s.constitutive_law, s.setup = law, 7.0
    want = law(m.v, m.u, m.b, 7.0, elements, m.nodes, m.t)
    ctx.close(s.stress, want, "stress", 1e-12, seq=tuple(seq))
    ctx.close(s.stress_norm, np.linalg.norm(want, axis=(1, 2)), "stress norm", 1e-12)
    ctx.close(s.stress_x, want[:, 0, 0], "stress x", 1e-12)
    ctx.close(s.stress_y, want[:, 1, 1], "stress y", 1e-12)


def play(ctx, cls, body, nodes, seq, recorder, check_all):
    n, d = nodes.shape
    s, m = cls(body), Model(nodes)
    aside = []
    handed = []  # vectors given by the caller
    for k, op in enumerate(seq):
        vec = (np.arange(n * d, dtype=float) * 0.1 + 0.3 * (k + 1)) * (-1) ** k
        field = vec.reshape(d, n).T.copy()
        keep = vec.copy()
        if op == "disp":
            s.set_displacement(vec, m.t + 0.5)
            m.u, m.t = field, m.t + 0.5
        elif op == "disp+abs":
            s.set_displacement(vec, m.t + 0.25, update_absement=True)
            m.u, m.b, m.t = field, m.b + 0.25 * field, m.t + 0.25
        elif op == "vel":
            s.set_velocity(vec, m.t + 1.0, update_displacement=False)
            m.v, m.t = field, m.t + 1.0
        elif op == "vel+disp":
            s.set_velocity(vec, time=m.t + 0.5, update_displacement=True)
            m.v, m.u, m.t = field, m.u + 0.5 * field, m.t + 0.5
        elif op == "same time":
            # corrections at the current time: nothing elapses, so nothing is integrated
            s.set_displacement(vec.copy(), m.t, update_absement=True)
            s.set_velocity(vec, time=m.t, update_displacement=True)
            m.v, m.u = field, field.copy()
        elif op == "slow":
            # tiny velocities for a long time
            vec, keep, field = vec * 2.0**-30, keep * 2.0**-30, field * 2.0**-30
            s.set_velocity(vec, time=m.t + 2.0**20, update_displacement=True)
            m.v, m.u, m.t = field, m.u + 2.0**20 * field, m.t + 2.0**20
        elif op == "scalar":
            vec, keep = vec[:n].copy(), vec[:n].copy()
            if cls.__name__ == "TemperatureState":
                s.set_temperature(vec)
            elif cls.__name__ == "PiezoelectricState":
                s.set_electric_potential(vec)
            m.s = keep.copy()
        elif op == "stress":
            read_stress(ctx, s, m, body.mesh.elements, seq[: k + 1])
        elif op == "to copy":
            c = s.copy()
            aside.append((s, m))
            s, m = c, m.copy()
        elif op == "keep copy":
            import copy as cp

            aside.append((cp.copy(s), m.copy()))
        elif op == "scribble":
            for a, am in aside:
                a.displacement += 1.0
                a.velocity[0] = 5.0
                a.absement[:] = 3.0
                a.displaced_nodes[:] = am.nodes + am.u + 1.0
                am.u, am.v, am.b = am.u + 1.0, am.v.copy(), np.full(am.b.shape, 3.0)
                am.v[0] = 5.0
        elif op == "reuse":
            for v, _ in handed:
                v[:] = 77.0
            handed.clear()
        elif op == "product":
            s.inject_product(recorder())
            m.log = []
        if op in ("disp", "disp+abs", "vel", "vel+disp", "same time", "slow"):
            if m.log is not None:
                m.log.append((m.t, m.u.copy(), m.v.copy()))
        if op in ("disp", "disp+abs", "vel", "vel+disp", "scalar", "same time", "slow"):
            handed.append((vec, keep))
        for v, kv in handed:
            ctx.close(v, kv, "vector of the caller", 0.0, seq=tuple(seq[: k + 1]))
        ctx.step()
        ctx.state((cls.__name__, d, m.u, m.v, m.b, m.s, m.t, len(aside)))
        equal(ctx, cls, s, m, "after an operation", seq[: k + 1])
        for a, am in aside:
            equal(ctx, cls, a, am, "of a copy made before", seq[: k + 1])
    read_stress(ctx, s, m, body.mesh.elements, seq)
    ctx.trace()
    ctx.outcome((m.u, m.v, m.t))
