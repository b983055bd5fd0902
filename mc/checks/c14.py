"""C14: an interrupted and resumed simulation equals the uninterrupted one."""
import itertools
import os
import tempfile

import numpy as np

from mc import problems as pb, timerun as tr, timespace as ts

MODES = ["py"]
CHUNK = 1
LONG = [[10, 10], [19, 1], [1, 19], [5, 5, 5, 5], [1] * 20, [2, 7, 11]]
CARRY = ["returned", "copy", "loaded", "loaded twice"]


def bounds(tier):
    n = 5 if tier == "thorough" else 4
    return {
        "membrane": f"every composition of {n} steps into segments x every assignment of hand-over "
        f"({', '.join(CARRY)}; same or new solver) to the joints; schur and global; boundary, interior and no contact; "
        "time-dependent loads; also 20 steps in segments " + ", ".join(str(p) for p in LONG),
        "other kinds": f"every composition of {n} steps, restarting from the displacement, velocity, absement and scalar "
        "field of the last state, with loads and operators that do not depend on time",
    }


def compositions(n):
    for bits in range(2 ** (n - 1)):
        parts, run = [], 1
        for k in range(n - 1):
            if bits >> k & 1:
                parts.append(run)
                run = 1
            else:
                run += 1
        yield parts + [run]


def jobs(tier, mode):
    n = 5 if tier == "thorough" else 4
    for method, law, mesh in (
        ("schur", "relu", "square2"),
        ("schur", "compliance", "square4"),
        ("global", "interior", "square2"),
        ("global", "compliance", "square2"),
        ("schur", "zero", "lshape"),
    ):
        for parts in compositions(n):
            yield {"kind": "wave", "method": method, "law": law, "mesh": mesh, "parts": parts}
        for parts in LONG:
            yield {"kind": "wave", "method": method, "law": law, "mesh": mesh, "parts": parts}
    for kind in tr.KINDS:
        if kind == "wave":
            continue
        for method in tr.methods(kind, tier):
            yield {"kind": kind, "method": method, "law": "relu", "mesh": "square2", "n": n}
            if kind in ("quasistatic", "dynamic", "relaxation") or tier == "thorough":
                yield {"kind": kind, "method": method, "law": "relu", "mesh": "square2", "n": 20}
            if tier == "thorough":
                yield {"kind": kind, "method": method, "law": "stick", "mesh": "dart", "n": n}


def hand_over(state, how, folder):
    from conmech.state.state import State

    if how == "returned":
        return state
    if how == "copy":
        return state.copy()
    for _ in range(2 if how == "loaded twice" else 1):
        path = os.path.join(folder, "state")
        state.save(path)
        state = State.load(path)
    return state


def run(job, ctx):
    ctx.sample(job)
    kind = job["kind"]
    if kind == "wave":
        return wave(job, ctx)
    n = job["n"]
    still = dict(relax=lambda t: pb.RL)
    from mc import laws, meshref

    def mk():
        arrays = meshref.get_mesh(job["mesh"])
        contact, dirichlet, value, _ = ts.SETUPS["bottom/top tilted"]
        fi, fo = (lambda x, t: ts.LOADS["push"][0](x, 0.2)), (lambda x, t: ts.LOADS["push"][1](x, 0.2))
        direct = job["method"] == "direct"
        bd = {"contact": contact, "dirichlet": (dirichlet, value)}
        if kind.startswith("piezo"):
            bd["piezo_dirichlet_0"] = (lambda x: x[1] == 0, lambda x: 0.5 + x[:, 0])
        kw = dict(te=0.2 * pb.TE, pz=0.2 * pb.PZ, **still)
        return pb.make_solver(
            kind, arrays, bd, job["method"], inner=fi, outer=fo, dt=tr.DT,
            law=None if direct else laws.LAWS[job["law"]]().conmech(), law2=None if direct else pb.zero_law()(), **kw,
        )

    def scalar(s):
        return s.temperature if kind == "temperature" else getattr(s, "electric_potential", None)

    data = tr.start(kind, "moving")
    full = [s for s in pb.solve(kind, mk(), n_steps=n, output_step=list(range(1, n + 1)), **data)]
    ctx.step(n)
    for parts in [p for p in LONG if p[0] != 5] if n == 20 else compositions(n):
        for reuse in (False, True):
            solver = mk()
            cur, done = data, 0
            for m in parts:
                if not reuse and done:
                    solver = mk()
                s = pb.solve(kind, solver, n_steps=m, **cur)[-1]
                done += m
                want = full[done - 1]
                case = dict(parts=parts, reuse=reuse, done=done)
                tol = 1e-6 if kind in ("temperature", "piezo_q", "piezo_d") else 1e-7
                for f in ("displacement", "velocity"):
                    ctx.close(getattr(s, f), getattr(want, f), f"{f} after restarting ({kind})", tol, **case)
                if kind == "relaxation":
                    ctx.close(s.absement, want.absement, "absement after restarting", tol, **case)
                if scalar(s) is not None:
                    ctx.close(scalar(s), scalar(want), f"scalar field after restarting ({kind})", tol, **case)
                ctx.close(s.time, m * tr.DT, "time of a new run", 1e-12)
                cur = {
                    "u0": lambda x, s=s: np.array(s.displacement),
                    "v0": lambda x, s=s: np.array(s.velocity),
                    "b0": lambda x, s=s: np.array(s.absement),
                }
                if scalar(s) is not None:
                    cur["s0"] = lambda x, s=s: np.array(scalar(s), dtype=float)
                ctx.step(m)
                ctx.state((job, done, s.displacement))
            ctx.trace()
            ctx.outcome((kind, parts))


def wave(job, ctx):
    parts = job["parts"]
    n = sum(parts)
    mk = lambda: tr.make("wave", job["method"], job["mesh"], law=job["law"], setup="bottom/top moved")
    data = tr.start("wave", "moving")
    full = [tr.fields("wave", s) for s in pb.solve("wave", mk(), n_steps=n, output_step=list(range(1, n + 1)), **data)]
    ctx.step(n)
    hows = list(itertools.product(CARRY, (False, True)))
    choices = itertools.product(hows, repeat=len(parts) - 1) if len(parts) < 10 else ((h,) * (len(parts) - 1) for h in hows)
    for choice in choices:
        if len(parts) > 3 and len({c for c in choice}) > (2 if n < 20 else 1):
            continue  # longer chains: at most two different ways to hand over
        with tempfile.TemporaryDirectory() as folder:
            solver, state, done = mk(), None, 0
            for j, m in enumerate(parts):
                if j:
                    how, reuse = choice[j - 1]
                    state = hand_over(state, how, folder)
                    if not reuse:
                        solver = mk()
                got = pb.solve("wave", solver, n_steps=m, output_step=list(range(1, m + 1)), state=state, **data)
                for k, s in enumerate(got, 1):
                    ctx.close(
                        tr.fields("wave", s), full[done + k - 1], "state of a resumed run", 1e-7, parts=parts,
                        choice=choice, done=done + k,
                    )
                    ctx.state((job["method"], job["law"], done + k, s.displacement))
                done += m
                state = got[-1]
                ctx.step(m)
            ctx.trace()
            ctx.outcome((parts, choice))
