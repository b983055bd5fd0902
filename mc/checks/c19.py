"""C19: loads always come from the current sources at the requested time, whatever was asked before."""
import itertools
import os
import tempfile

import numpy as np

from mc import meshref, problems as pb, reffem

MODES = ["py"]
CHUNK = 1
OPS = ["inner A", "inner B", "outer A", "outer B", "at 0", "at 1", "at 2.5", "at 1.0000000000000002", "clear", "save", "spoil"]

NEXT = 1.0000000000000002  # the smallest time after 1


def jump(t):
    """A load that is switched on right after t = 1 (and so differs at neighbouring times)."""
    return 4.0 if t > 1 else 0.0


SOURCES = {
    "A": lambda x, t: np.array([1.0 + x[0] + t, -x[1] * (1 + t) + jump(t)]),
    "B": lambda x, t: np.array([-2.0 * t, 3.0 + x[0] * x[1] + t * t]),
}


def bounds(tier):
    return {
        "operations": OPS,
        "sequences": "all of length <= " + ("5" if tier == "thorough" else "4")
        + " on the loads of a body; results compared after every query, and at every time in the end",
        "many times": "300 (2000) times asked upwards, downwards and mixed, twice more, and with changed sources",
        "containers": "forces and temperature sources; two bodies side by side",
    }


def jobs(tier, mode):
    depth = 5 if tier == "thorough" else 4
    for field in ("force", "temperature"):
        for a, b in itertools.product(OPS, repeat=2):
            yield {"field": field, "prefix": [a, b], "depth": depth}
    yield {"field": "two", "prefix": [], "depth": 3}
    for order in ("up", "down", "spread"):
        yield {"field": "many", "order": order, "count": 2000 if tier == "thorough" else 300}


def build():
    bd = {"contact": lambda x: x[1] == 0, "dirichlet": lambda x: x[0] == 0}
    s = pb.make_solver("static", meshref.get_mesh("square4"), bd, "direct", law=None)
    return s.body


def reference(body):
    mesh = body.mesh
    fem = reffem.RefFem(mesh.nodes, mesh.elements)
    ref = meshref.MeshRef(*meshref.get_mesh("square4"))
    idx = {k: i for i, k in enumerate(meshref.keys(mesh.nodes))}
    _, nf, _ = ref.classify_facets(lambda x: x[1] == 0, lambda x: x[0] == 0)
    facets = [[idx[p] for p in f] for f in nf]
    cache = {}

    def loads(a, b, t):
        if (a, b, t) not in cache:
            cache[a, b, t] = fem.stack(fem.load(lambda x: SOURCES[a](x, t), lambda x: SOURCES[b](x, t), facets))
        return cache[a, b, t]

    return loads


def run(job, ctx):
    ctx.sample(job)
    if job["field"] == "two":
        return two(job, ctx)
    if job["field"] == "many":
        return many(job, ctx)
    body = build()
    loads = reference(body)
    from conmech.state.state import State

    with tempfile.TemporaryDirectory() as folder:
        for length in range(len(job["prefix"]), job["depth"] + 1):
            for rest in itertools.product(OPS, repeat=length - len(job["prefix"])):
                seq = job["prefix"] + list(rest)
                from conmech.scene.body_forces import BodyForces

                forces = BodyForces(body)
                setattr(body.dynamics, job["field"], forces)
                forces.inner.source, forces.outer.source = SOURCES["A"], SOURCES["B"]
                cur = {"inner": "A", "outer": "B"}
                last = None
                for op in seq:
                    what, _, arg = op.partition(" ")
                    if what in cur:
                        getattr(forces, what).source = SOURCES[arg]
                        cur[what] = arg
                    elif what == "at":
                        last = forces.integrate(time=float(arg))
                        ctx.close(last, loads(cur["inner"], cur["outer"], float(arg)), "load", 1e-10, seq=seq)
                    elif what == "clear":
                        forces.clear()
                    elif what == "save":
                        State(body).save(os.path.join(folder, "s"))
                    elif what == "spoil" and last is not None:
                        last[:] = 123.0
                    ctx.step()
                ctx.state((job["field"], cur, seq[-2:]))
                for t in (0.0, 1.0, NEXT, 2.5):
                    ctx.close(
                        forces.integrate(time=t), loads(cur["inner"], cur["outer"], t), "load in the end", 1e-10, seq=seq, t=t
                    )
                ctx.trace()
                ctx.outcome((cur, seq.count("clear")))


def many(job, ctx):
    """Many different times, asked in some order, then all again, then all of them with other sources."""
    body = build()
    loads = reference(body)
    forces = body.dynamics.force
    n = job["count"]
    order = {"up": list(range(n)), "down": list(range(n))[::-1], "spread": [7 * k % n for k in range(n)]}[job["order"]]
    for a, b in (("A", "B"), ("B", "B"), ("B", "A"), ("A", "B")):
        forces.inner.source, forces.outer.source = SOURCES[a], SOURCES[b]
        for again in (False, True):
            for k in order if not again else order[::-1] + order:
                t = k / 16
                ctx.close(forces.integrate(time=t), loads(a, b, t), "load after many times", 1e-10, time=t)
                ctx.step()
        ctx.trace()
        ctx.state((job["order"], a, b))
        ctx.outcome((a, b))


def two(job, ctx):
    """Two bodies alternate; each keeps its own loads."""
    b1, b2 = build(), build()
    loads = reference(b1)
    ops = [(k, w, a) for k in (0, 1) for w, a in (("inner", "A"), ("inner", "B"), ("outer", "A"), ("at", 0.0), ("at", 1.0))]
    for seq in itertools.product(ops, repeat=3):
        cur = [{"inner": "A", "outer": "B"}, {"inner": "B", "outer": "A"}]
        for body, c in zip((b1, b2), cur):
            f = body.dynamics.force
            f.inner.source, f.outer.source = SOURCES[c["inner"]], SOURCES[c["outer"]]
        for k, w, a in seq:
            f = (b1, b2)[k].dynamics.force
            if w == "at":
                ctx.close(f.integrate(time=a), loads(cur[k]["inner"], cur[k]["outer"], a), "load of one of two bodies", 1e-10)
            else:
                getattr(f, w).source = SOURCES[a]
                cur[k][w] = a
            ctx.step()
        for k, body in enumerate((b1, b2)):
            for t in (0.0, 1.0):
                ctx.close(
                    body.dynamics.force.integrate(time=t), loads(cur[k]["inner"], cur[k]["outer"], t),
                    "load of one of two bodies", 1e-10,
                )
        ctx.trace()
        ctx.state(cur)
        ctx.outcome(cur)
