"""C17: saving and loading a state, with every torn file and every point at which writing can fail."""
import itertools
import os
import resource
import signal
import tempfile

import numpy as np

from mc import problems as pb, timerun as tr

MODES = ["py"]
CHUNK = 1
KINDS = ["static", "poisson"] + tr.KINDS


def bounds(tier):
    t = tier == "thorough"
    return {
        "kinds": KINDS,
        "round trips": "every state of a 2 step run x {saved once, twice, loaded and saved again}",
        "failing writes": "file size limited to every " + ("byte" if t else "23rd byte and every one of the first 40 bytes")
        + " below the size of the file; unwritable path; a product that cannot be written",
        "torn files": "every " + ("prefix" if t else "third prefix") + " of the file",
        "operation sequences": "all of length <= 3 over {save, failing save, step, load}",
    }


def jobs(tier, mode):
    t = tier == "thorough"
    for kind in KINDS:
        yield {"kind": kind, "what": "round"}
        yield {"kind": kind, "what": "sequences"}
        for part in range(8 if t else 2):
            yield {"kind": kind, "what": "limit", "part": part, "parts": 8 if t else 2, "every": 1 if t else 23}
            if kind in ("static", "dynamic", "temperature", "piezo_q"):
                yield {"kind": kind, "what": "torn", "part": part, "parts": 8 if t else 2, "every": 1 if t else 3}


def build(kind):
    """A solver and the states of a run, with products where the kind supports them."""
    from conmech.state.products.penetration import Penetration

    if kind in ("static", "poisson"):
        from mc.checks.c15 import make

        solver, _ = make(kind, "schur")
        states = pb.solve(kind, solver)
    else:
        solver = tr.make(kind, "schur")
        kw = {"products": [Penetration()]} if kind in ("quasistatic", "dynamic", "wave", "relaxation") else {}
        states = pb.solve(kind, solver, n_steps=2, output_step=[1, 2], **tr.start(kind, "moving"), **kw)
    for s in states:
        s.constitutive_law, s.setup = (lambda **kw: np.zeros((1, 2, 2))), solver.problem
    return solver, states


def view(kind, s):
    """Everything observable of a state and its body."""
    mesh, dyn = s.body.mesh, s.body.dynamics
    return {
        "fields": tr.fields(kind, s),
        "products": {n: sorted(p.data.items()) for n, p in s.products.items()},
        "nodes": np.array(mesh.nodes),
        "elements": np.array(mesh.elements),
        "contact": np.array(mesh.contact_boundary),
        "dirichlet": np.array(mesh.dirichlet_boundary),
        "mass": np.array(dyn.acceleration_operator.data),
    }


def same(ctx, got, want, what, **case):
    for k in want:
        if k == "products":
            ctx.check(got[k] == want[k], f"products {what}", **case)
        else:
            ctx.close(got[k], want[k], f"{k} {what}", 0.0, **case)


def live(s):
    f, h = s.body.dynamics.force, s.body.dynamics.temperature
    return (f.inner.source, f.outer.source, h.inner.source, h.outer.source, s.setup, s.constitutive_law)


def intact(ctx, kind, s, was, want, loads, what, **case):
    ctx.check(all(a is b for a, b in zip(live(s), was)), f"forces or laws of the live state changed {what}", **case)
    same(ctx, view(kind, s), want, f"of the live state {what}", **case)
    ctx.close(field(kind, s.body.dynamics).integrate(time=0.75), loads, f"loads {what}", 0.0, **case)


def field(kind, dynamics):
    return dynamics.temperature if kind == "poisson" else dynamics.force


class limited:
    """Every write beyond `size` bytes of any file fails, as on a full disk."""

    def __init__(self, size):
        self.size = size

    def __enter__(self):
        self.old = resource.getrlimit(resource.RLIMIT_FSIZE)
        self.sig = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (self.size, self.old[1]))

    def __exit__(self, *a):
        resource.setrlimit(resource.RLIMIT_FSIZE, self.old)
        signal.signal(signal.SIGXFSZ, self.sig)


class Unwritable:
    name = "unwritable"

    def __init__(self):
        self.data = {}

    def update(self, state):
        pass

    def copy(self):
        return self

    def __reduce__(self):
        raise RuntimeError("cannot be written")


def run(job, ctx):
    from conmech.state.state import State

    ctx.sample(job)
    kind = job["kind"]
    solver, states = build(kind)
    loads = np.array(field(kind, solver.body.dynamics).integrate(time=0.75))
    with tempfile.TemporaryDirectory() as folder:
        path = os.path.join(folder, "state")
        s = states[-1]
        want, was = view(kind, s), live(s)
        if job["what"] == "round":
            for k, s in enumerate(states):
                want, was = view(kind, s), live(s)
                for chain in range(1, 4):
                    src = s
                    for r in range(chain):
                        p = f"{path}_{k}_{chain}_{r}"
                        src.save(p)
                        intact(ctx, kind, s, was, want, loads, "by saving")
                        src = State.load(p)
                        ctx.check(type(src) is type(s), "class of a loaded state", got=type(src).__name__)
                        same(ctx, view(kind, src), want, "of a loaded state", state=k, chain=chain)
                        ctx.step(2)
                        ctx.state((kind, k, chain, r))
                    # a loaded state works on its own
                    c = src.copy()
                    v = np.arange(c.velocity.size, dtype=float)
                    c.set_velocity(v, time=9.0, update_displacement=True)
                    want_u = want["fields"][: v.size].reshape(-1, 2) + (9.0 - s.time) * v.reshape(2, -1).T
                    ctx.close(c.displacement, want_u, "loaded state after an update", 1e-12)
                    same(ctx, view(kind, src), want, "of a loaded state whose copy advanced")
                    intact(ctx, kind, s, was, want, loads, "by advancing a loaded state")
                    ctx.trace()
                    ctx.outcome((kind, k, chain))
        elif job["what"] == "limit":
            s.save(path)
            size = os.path.getsize(path)
            cuts = sorted(set(range(0, size, job["every"])) | set(range(40)) | {size - 1})
            for n in cuts[job["part"] :: job["parts"]]:
                p = f"{path}_l"
                failed = False
                with limited(n):
                    try:
                        s.save(p)
                    except Exception:
                        failed = True
                if not failed:  # the file may be some bytes shorter than the first one
                    same(ctx, view(kind, State.load(p)), want, "saved within the limit", limit=n, size=size)
                intact(ctx, kind, s, was, want, loads, "by a failing save", limit=n)
                s.save(p)
                same(ctx, view(kind, State.load(p)), want, "saved after a failure", limit=n)
                ctx.step(3)
                ctx.trace()
                ctx.state((kind, "limit", n))
            for bad in (folder, os.path.join(folder, "missing", "state")):
                failed = False
                try:
                    s.save(bad)
                except Exception:
                    failed = True
                ctx.check(failed, "saving to a bad path reported success")
                intact(ctx, kind, s, was, want, loads, "by saving to a bad path")
                ctx.trace()
            c = s.copy()
            c.setup, c.constitutive_law = s.setup, s.constitutive_law
            c.products["unwritable"] = Unwritable()
            failed = False
            try:
                c.save(path)
            except Exception:
                failed = True
            ctx.check(failed, "saving an unwritable product reported success")
            intact(ctx, kind, s, was, want, loads, "by an unwritable product")
            ctx.trace()
            ctx.outcome((kind, "limit"))
        elif job["what"] == "torn":
            s.save(path)
            raw = open(path, "rb").read()
            for n in range(0, len(raw), job["every"])[job["part"] :: job["parts"]]:
                with open(path + "_t", "wb") as f:
                    f.write(raw[:n])
                try:
                    State.load(path + "_t")
                except Exception:
                    pass
                else:
                    ctx.fail("a torn file was loaded as a state", prefix=n, size=len(raw))
                ctx.step()
                ctx.trace()
                ctx.state((kind, "torn", n))
            ctx.outcome((kind, "torn"))
        else:
            sequences(ctx, kind, s, solver, folder, loads)


def sequences(ctx, kind, first, solver, folder, loads):
    from conmech.state.state import State

    path = os.path.join(folder, "slot")
    for seq in itertools.product(("save", "failing save", "step", "load"), repeat=3):
        if os.path.exists(path):
            os.remove(path)
        s = first.copy()
        s.setup, s.constitutive_law = first.setup, first.constitutive_law
        want, was = view(kind, s), live(s)
        slot = None
        for k, op in enumerate(seq):
            if op == "save":
                s.save(path)
                slot = view(kind, s)
            elif op == "failing save":
                with limited(10):
                    try:
                        s.save(path + "_f")
                    except Exception:
                        pass
            elif op == "step":
                v = np.arange(s.velocity.size, dtype=float) * 0.1 * (k + 1)
                s.set_velocity(v, time=s.time + 0.5, update_displacement=True)
                u = want["fields"][: v.size].reshape(-1, 2) + 0.5 * v.reshape(2, -1).T
                ctx.close(s.displacement, u, "displacement after a step", 1e-12, seq=seq)
                want = view(kind, s)
            elif slot is not None:
                loaded = State.load(path)
                same(ctx, view(kind, loaded), slot, "of the loaded state", seq=seq)
            intact(ctx, kind, s, was, want, loads, f"after {op}", seq=seq)
            ctx.step()
        ctx.trace()
        ctx.state((kind, seq))
        ctx.outcome((kind, seq.count("step")))
