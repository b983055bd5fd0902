"""C18: products report the quantity they are named after, at every step, and ranges select times."""
import itertools
import os
import tempfile

import numpy as np

from mc import meshref, problems as pb, timerun as tr

MODES = ["py"]
CHUNK = 1
LEVELS = [0.25, 0.5, 0.7]
VALUES = [-1.0, 0.4, 2.0]
SHIFTS = {"below": (-3.0, -2.5), "above": (0.5, 2.0)}  # the square elsewhere


def bounds(tier):
    return {
        "fields": "every assignment of 3 values to the nodes of square2 (in 3 places), square4"
        + (" and a 2x1 grid" if tier == "thorough" else ""),
        "lines": LEVELS,
        "obstacles": [0.0, 0.3],
        "ranges": "every set of recorded times over 5 x every (start, stop) over a grid of 11 times",
        "runs": "quasistatic, dynamic, wave, relaxation: every output schedule over 3 steps, and 4 over many steps; membrane resumed at every step",
        "penetration": "every displacement of the contact nodes over 3 heights, 5 contact indicators",
    }


def jobs(tier, mode):
    for mesh in ["square2", "square4", "below", "above"] + (["grid12"] if tier == "thorough" else []):
        for x in LEVELS:
            x += SHIFTS.get(mesh, (0.0, 0.0))[0]
            for o in (0.0, 0.3):
                yield {"what": "line", "mesh": mesh, "x": x, "o": o}
    for mesh in ("square2", "lshape", "dart", "below", "above"):
        yield {"what": "penetration", "mesh": mesh}
    yield {"what": "range"}
    for kind in ("quasistatic", "dynamic", "wave", "relaxation"):
        for method in tr.methods(kind, tier):
            yield {"what": "run", "kind": kind, "method": method}
            yield {"what": "run", "kind": kind, "method": method, "n": 60 if tier == "thorough" else 20}
    yield {"what": "resume"}


def get(mesh):
    if mesh == "grid12":
        from mc import meshes

        return meshes.grid([0, 1.0], [0, 0.5, 1.0], "diag")
    if mesh in SHIFTS:
        nodes, elements = meshref.get_mesh("square2")
        return nodes + np.array(SHIFTS[mesh]), elements
    return meshref.get_mesh(mesh)


def body_of(mesh, contact=lambda x: x[1] == 0):
    bd = {"contact": contact, "dirichlet": lambda x: x[0] >= 100.0}
    from conmech.dynamics.dynamics import Dynamics
    from conmech.mesh.boundaries_description import BoundariesDescription
    from conmech.mesh.mesh import Mesh
    from conmech.properties.body_properties import ElasticProperties
    from conmech.simulations.problem_solver import Body
    from mc import meshes

    m = Mesh(mesh_descr=meshes.array_description(*get(mesh)), boundaries_description=BoundariesDescription(**bd))
    body = Body(ElasticProperties(1.0, 1.0, 1.0), m)
    Dynamics(body)
    return body


def interpolate(nodes, elements, values, p):
    """Value of the piecewise linear field at p (None outside)."""
    for el in elements:
        a = nodes[el]
        lam = np.linalg.solve(np.vstack((a.T, np.ones(3))), np.array([p[0], p[1], 1.0]))
        if np.min(lam) > -1e-9:
            return float(lam @ values[el])
    return None


def breaks(nodes, elements, x):
    """Heights at which the line through x crosses an edge."""
    ys = set()
    for el in elements:
        for i, j in itertools.combinations(el, 2):
            (xa, ya), (xb, yb) = nodes[i], nodes[j]
            if (xa - x) * (xb - x) <= 0 and xa != xb:
                ys.add(round(ya + (x - xa) / (xb - xa) * (yb - ya), 12))
    return sorted(ys)


def zeros_of(nodes, elements, values, x, o):
    """(simple zeros, degenerate?) of the field minus o along the line."""
    ys = breaks(nodes, elements, x)
    f = [interpolate(nodes, elements, values, (x, y)) - o for y in ys]
    if any(abs(v) < 1e-9 for v in f):
        return None, ys
    out = []
    for (ya, fa), (yb, fb) in zip(zip(ys, f), zip(ys[1:], f[1:])):
        if fa * fb < 0:
            out.append(ya + fa / (fa - fb) * (yb - ya))
    return out, ys


def run(job, ctx):
    ctx.sample(job)
    globals()["do_" + job["what"]](job, ctx)


def do_line(job, ctx):
    from conmech.state.products.intersection_contact_limit_points import VerticalIntersectionContactLimitPoints
    from conmech.state.products.verticalintersection import VerticalIntersection
    from conmech.state.state import State

    body = body_of(job["mesh"])
    nodes, elements = np.array(body.mesh.nodes), np.array(body.mesh.elements)
    n, x, o = len(nodes), job["x"], job["o"]
    grain = 1.0 / n  # the products look at steps of half of this
    for k, vals in enumerate(itertools.product(VALUES, repeat=n)):
        vals = np.array(vals)
        s = State(body)
        line, limit = VerticalIntersection(x), VerticalIntersectionContactLimitPoints(x, o)
        s.inject_product(line)
        s.inject_product(limit)
        vec = np.concatenate((vals, 0.7 - vals[::-1]))
        s.set_displacement(vec, time=1.0)
        s.set_displacement(-vec, time=2.0)
        for t, sign in ((1.0, 1), (2.0, -1)):
            f = sign * vals
            ys, got = line.data[t]
            ys, got = np.asarray(ys, dtype=float), np.ma.filled(np.ma.asarray(got, dtype=float), np.nan)
            want = np.array([interpolate(nodes, elements, f, (x, y)) for y in ys], dtype=float)
            ctx.close(got, want, "displacement along the line", 1e-9, values=f)
            ctx.check(
                len(ys) > 1 and abs(ys[0] - nodes[:, 1].min()) < 1e-9 and abs(ys[-1] - nodes[:, 1].max()) < 1e-9
                and np.all(np.diff(ys) > 0),
                "the line is not covered",
                ys=ys,
            )
            exact, brk = zeros_of(nodes, elements, f, x, o)
            zs = list(limit.data[t])
            for z in zs:
                v = interpolate(nodes, elements, f, (x, z))
                ctx.check(v is not None and abs(v - o) < 1e-6, "a limit point is not on the obstacle", z=z, values=f)
            if exact is not None:
                # zeros that the scan resolves must be found, each once
                sep = all(b - a > grain for a, b in zip(exact, exact[1:]))
                if sep and all(z < brk[-1] - grain for z in exact):
                    ctx.check(len(zs) == len(exact), "number of limit points", got=zs, want=exact, values=f)
                    if len(zs) == len(exact):
                        ctx.close(sorted(zs), exact, "limit points", 1e-6, values=f)
                ctx.outcome((len(exact), len(zs)))
        ctx.check(sorted(line.data) == [1.0, 2.0] and sorted(limit.data) == [1.0, 2.0], "recorded times")
        ctx.step(2)
        ctx.trace()
        ctx.state((job, k))


def do_penetration(job, ctx):
    from conmech.state.products.penetration import Penetration
    from conmech.state.state import State

    for c, contact in enumerate(
        (lambda x: x[1] in (0, -2.5), lambda x: x[0] in (0, -3.0), lambda x: True, lambda x: False, lambda x: x[1] >= 1.0)
    ):
        body = body_of(job["mesh"], contact)
        mesh = body.mesh
        nodes = np.array(mesh.nodes)
        ref = meshref.MeshRef(*get(job["mesh"]))
        on = [i for i, p in enumerate(meshref.keys(nodes)) if p in ref.boundary_points and contact(nodes[i])]
        for vals in itertools.product((-0.5, 0.0, 0.75), repeat=min(len(on), 4)):
            s = State(body)
            p = Penetration()
            s.inject_product(p)
            u = np.full((len(nodes), 2), -9.0)
            u[on] = 0.1
            for i, v in zip(on, vals):
                u[i, 1] = v
            s.set_displacement(u.T.reshape(-1), time=0.5)
            want = min((nodes[i, 1] + u[i, 1] for i in on), default=0.0)
            ctx.close(p.data[0.5], want, "penetration", 1e-12)
            s.set_velocity(np.ones(u.size), time=1.5, update_displacement=True)
            ctx.close(p.data[1.5], want + 1.0 if on else 0.0, "penetration", 1e-12)
            ctx.close(p.data[0.5], want, "penetration recorded before", 1e-12)
            ctx.step(2)
            ctx.trace()
            ctx.state((job["mesh"], c, vals))
            ctx.outcome(want)


def do_range(job, ctx):
    from conmech.state.products.penetration import Penetration
    from conmech.state.products.intersection_contact_limit_points import VerticalIntersectionContactLimitPoints
    from conmech.state.products.verticalintersection import VerticalIntersection

    for make in (Penetration, lambda: VerticalIntersection(0.3), lambda: VerticalIntersectionContactLimitPoints(0.3, 0.2)):
        for bits in range(32):
            times = [0.5 * k for k in range(5) if bits >> k & 1]
            p = make()
            for t in times:
                p.data[t] = ("entry", t)
            for start, stop in itertools.product([0.25 * k - 0.25 for k in range(11)], repeat=2):
                r = p.range(start, stop)
                ctx.check(
                    sorted(r.data.items()) == [(t, ("entry", t)) for t in times if start < t <= stop],
                    "range of a product",
                    times=times,
                    start=start,
                    stop=stop,
                    got=sorted(r.data),
                )
                ctx.check(sorted(p.data) == times, "product after range", times=times)
                ctx.check(r.name == p.name and type(r) is type(p), "kind of a range")
                r.data[99.0] = None
                ctx.check(99.0 not in p.data, "range shares data")
                ctx.step()
            c = p.copy()
            c.data[77.0] = None
            ctx.check(77.0 not in p.data, "copy shares data")
            ctx.trace()
            ctx.state((p.name, bits))
            ctx.outcome(bits)


def products(kind):
    from conmech.state.products.penetration import Penetration
    from conmech.state.products.verticalintersection import VerticalIntersection

    return [Penetration(), VerticalIntersection(0.3)]


def expect(kind, solver, s):
    mesh = solver.body.mesh
    nodes, elements = np.array(mesh.nodes), np.array(mesh.elements)
    on = [i for i in range(len(nodes)) if nodes[i, 1] == 0]
    p = min(nodes[i, 1] + s.displacement[i, 1] for i in on)
    return p, lambda ys: np.array([interpolate(nodes, elements, s.displacement[:, 0], (0.3, y)) for y in ys], dtype=float)


def compare(ctx, s, wanted, **case):
    times = sorted(wanted)
    pen, line = s.products["penetration"], s.products["intersection at 0.30"]
    for p in (pen, line):
        if not ctx.check(np.allclose(sorted(p.data), times), "times of a product", got=sorted(p.data), want=times, **case):
            return
    for t, key in zip(times, sorted(pen.data)):
        ctx.close(pen.data[key], wanted[t][0], "penetration of a run", 1e-9, **case)
        ys, got = line.data[key]
        ctx.close(np.ma.filled(got, np.nan), wanted[t][1](ys), "displacement along the line of a run", 1e-9, **case)


def do_run(job, ctx):
    kind = job["kind"]
    data = tr.start(kind, "moving")
    solver = tr.make(kind, job["method"])
    n = job.get("n", 3)
    full = {
        s.time: expect(kind, solver, s)
        for s in pb.solve(kind, solver, n_steps=n, output_step=list(range(1, n + 1)), **data)
    }
    times = sorted(full)
    if n == 3:
        scheds = [[k + 1 for k in range(n) if bits >> k & 1] for bits in range(1, 2**n)]
    else:
        scheds = [[n], [1, n], list(range(7, n, 5)), list(range(1, n + 1))]
    for sched in scheds:
        for reuse in (False, True):
            sol = solver if reuse else tr.make(kind, job["method"])
            prods = products(kind)
            got = pb.solve(kind, sol, n_steps=max(sched), output_step=sched, products=prods, **data)
            for k, s in zip(sched, got):
                compare(ctx, s, {t: full[t] for t in times[:k]}, schedule=sched, step=k)
            ctx.step(max(sched))
            ctx.trace()
            ctx.state((kind, job["method"], sched, reuse))
            ctx.outcome((kind, sched))


def do_resume(job, ctx):
    from mc.checks.c14 import CARRY, compositions, hand_over

    n = 4
    data = tr.start("wave", "moving")
    mk = lambda: tr.make("wave", "schur")
    solver = mk()
    full = {
        s.time: expect("wave", solver, s)
        for s in pb.solve("wave", solver, n_steps=n, output_step=list(range(1, n + 1)), **data)
    }
    times = sorted(full)
    for parts in compositions(n):
        for how in CARRY:
            with tempfile.TemporaryDirectory() as folder:
                state, done = None, 0
                for j, m in enumerate(parts):
                    if j:
                        state = hand_over(state, how, folder)
                    kw = {} if j else {"products": products("wave")}
                    got = pb.solve("wave", mk(), n_steps=m, state=state, **data, **kw)
                    done += m
                    compare(ctx, got[-1], {t: full[t] for t in times[:done]}, parts=parts, how=how)
                    state = got[-1]
                    ctx.step(m)
                ctx.trace()
                ctx.state((parts, how))
                ctx.outcome(parts)
