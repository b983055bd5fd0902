"""C13: results do not depend on the output schedule, and returned states are independent snapshots."""
import itertools

import numpy as np

from mc import problems as pb, timerun as tr

MODES = ["py"]
CHUNK = 1
LONG = (20, 60)
SLOW = ("temperature", "piezo_q", "piezo_d")


def bounds(tier):
    n = 5 if tier == "thorough" else 4
    return {
        "kinds": tr.KINDS,
        "schedules": f"default and every strictly increasing sequence over 0..{n}, as tuple and as list",
        "meshes": ["square2", "square4"] if tier == "thorough" else ["square2"],
        "long runs": f"{LONG[tier == 'thorough']} steps: the default, every stride and every single step among the last 3",
        "overwriting": "every returned state in turn, all of its fields, while and after the run",
    }


def jobs(tier, mode):
    n = 5 if tier == "thorough" else 4
    for kind in tr.KINDS:
        for method in tr.methods(kind, tier):
            for mesh in ["square2", "square4"] if tier == "thorough" else ["square2"]:
                for init in ("rest", "moving"):
                    yield {"kind": kind, "method": method, "mesh": mesh, "init": init, "n": n}
            yield {"kind": kind, "method": method, "mesh": "square2", "init": "moving", "n": LONG[tier == "thorough"], "long": True}


def scribble(kind, s, x=99.0):
    s.displacement[:] = x
    s.velocity[:] = x
    s.absement[:] = x
    s.displaced_nodes[:] = x
    if kind == "temperature":
        s.temperature[:] = x
    if kind.startswith("piezo"):
        s.electric_potential[:] = x
    s.time = x


def run(job, ctx):
    ctx.sample(job)
    kind, n = job["kind"], job["n"]
    mk = lambda: tr.make(kind, job["method"], job["mesh"])
    data = tr.start(kind, job["init"])

    def states(schedule, steps, solver=None):
        return pb.solve(kind, solver or mk(), n_steps=steps, output_step=schedule, **data)

    full = [tr.fields(kind, s) for s in states(list(range(0, n + 1)), n)]
    ctx.check(len(full) == n + 1, "one state per output step", n=len(full))
    for k, f in enumerate(full):
        ctx.state((job, k, f))
    ctx.step(n)
    ctx.trace()
    if job.get("long"):
        scheds = [list(range(0, n + 1, s)) for s in range(2, n + 1) if kind not in SLOW or s in (2, 7, n)]
        scheds += [[n - 2], [n - 1], [n], [0, n], [1, n - 1, n]]
        for sched in scheds:
            got = states(sched, max(sched))
            if ctx.check(len(got) == len(sched), "one state per output step", schedule=sched, n=len(got)):
                for k, s in zip(sched, got):
                    ctx.close(tr.fields(kind, s), full[k], "state of a long run", 1e-12, schedule=sched, step=k)
            ctx.step(max(sched))
            ctx.trace()
            ctx.outcome((kind, sched))
        got = states(None, n)
        ctx.close(tr.fields(kind, got[-1]), full[n], "default output of a long run", 1e-12)
        return
    # default: the state after n_steps
    for k in range(1, n + 1):
        got = states(None, k)
        ctx.check(len(got) == 1, "default output is one state", got=len(got))
        ctx.close(tr.fields(kind, got[-1]), full[k], "default output", 1e-12, steps=k)
        ctx.step(k)
        ctx.trace()
    # every schedule; two of three are tuples
    for bits in range(1, 2 ** (n + 1)):
        sched = [k for k in range(n + 1) if bits >> k & 1]
        got = states(sched if bits % 3 else tuple(sched), max(sched) or 1)
        ok = ctx.check(len(got) == len(sched), "one state per output step", schedule=sched, n=len(got))
        if ok:
            for k, s in zip(sched, got):
                ctx.close(tr.fields(kind, s), full[k], "state of a schedule", 1e-12, schedule=sched, step=k)
        ctx.step(max(sched))
        ctx.trace()
        ctx.outcome((kind, sched))
    # snapshots: overwrite one state, all others keep their values
    for victim in range(n + 1):
        solver = mk()
        got = states(list(range(0, n + 1)), n, solver)
        nodes = np.array(solver.body.mesh.nodes)
        scribble(kind, got[victim])
        for k, s in enumerate(got):
            if k != victim:
                ctx.close(tr.fields(kind, s), full[k], "state after another one was overwritten", 1e-12, victim=victim)
        ctx.close(solver.body.mesh.nodes, nodes, "mesh after a state was overwritten", 0.0)
        for k, s in enumerate(states(list(range(0, n + 1)), n, solver)):
            ctx.close(tr.fields(kind, s), full[k], "next run after a state was overwritten", 1e-12, victim=victim)
        ctx.step(2 * n)
        ctx.trace()
    # states delivered one by one may be overwritten at once
    from mc.core import quiet

    if kind == "temperature":
        for mask in range(2**n):
            solver = mk()
            zero = pb.zeros_like
            with quiet():
                for k, s in enumerate(
                    solver.solve(
                        n_steps=n,
                        output_step=list(range(1, n + 1)),
                        initial_displacement=data["u0"] or zero,
                        initial_velocity=data["v0"] or zero,
                        initial_temperature=data.get("s0") or pb.zeros,
                    )
                ):
                    ctx.close(tr.fields(kind, s), full[k + 1], "state delivered one by one", 1e-12, mask=mask)
                    if mask >> k & 1:
                        scribble(kind, s)
            ctx.step(n)
            ctx.trace()
