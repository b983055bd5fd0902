"""C15: a solver that was used before answers like a new one; solvers do not influence each other."""
import itertools
import os

import numpy as np

from mc import core, laws, meshref, problems as pb, timerun as tr, timespace as ts

MODES = ["py"]
CHUNK = 1
# one run: (initial data, steps)
FRESH = True
RUNS = {"rest1": ("rest", 1), "moving2": ("moving", 2), "bent3": ("bent", 3)}
# shorter runs of the expensive coupled problems in the quick tier
SHORT = {"rest1": ("rest", 1), "moving2": ("moving", 1), "bent3": ("bent", 2)}
CYCLES = 20
COUPLED = ("temperature", "piezo_q", "piezo_d")
ORDERS = ["AaBb", "ABab", "ABba", "ABaba", "AaBba", "ABbab"]


VARIANTS = ["law", "value", "nocontact", "material", "dt", "load", "mesh", "stretch"]


def variant(kind, name):
    """Keyword arguments of the variant, relative to the base problem."""
    if name == "law":
        return {"conmech_law": laws.LAWS["relu"](50.0).conmech()}
    if name == "value":
        return {"setup": "bottom/top"}
    if name == "nocontact":
        return {"setup": "none/left"}
    if name == "material":
        return dict(ts.SOFT, c=0.7, te=0.1 * pb.TE.T, tc=2 * pb.TC, pz=0.1 * pb.PZ, pm=2 * pb.TC, relax=lambda t: pb.relaxation(t) * 2)
    if name == "dt":
        return {} if kind in ("static", "poisson") else {"dt": 0.1}
    if name == "load":
        return {"load": "swing"}
    if name == "mesh":
        return {"mesh": "lshape"}
    if name == "stretch":
        nodes, elements = meshref.get_mesh("square2" if kind not in ("static", "poisson") else "square4")
        return {"arrays": (nodes * np.array((2.0, 1.0)), elements)}
    return {}


def bounds(tier):
    return {
        "kinds": ["static", "poisson"] + tr.KINDS,
        "histories": "all sequences of length <= " + ("4" if tier == "thorough" else "3")
        + " over {3 runs with different initial data and lengths, reassigning the method, refreshing the solvers} on one "
        "solver",
        "long histories": f"every word of length <= 2 repeated to {CYCLES} operations",
        "variants": "pairs in which the second problem differs in one respect: " + ", ".join(VARIANTS),
        "isolation": "expected results come from separate processes, each job runs in a new process",
        "pairs": "all interleavings of two runs each on two solvers of the same problem, of the same and of different "
        "kinds",
    }


def jobs(tier, mode):
    depth = 4 if tier == "thorough" else 3
    for kind in tr.KINDS:
        for method in tr.methods(kind, tier):
            for first in list(RUNS) + ["method", "refresh"]:
                yield {"kind": kind, "method": method, "depth": depth, "first": first}
            if kind not in COUPLED or tier == "thorough":
                yield {"kind": kind, "method": method, "cycles": CYCLES}
            for other in [kind] + [k for k in ("static", "dynamic", "wave") if k != kind]:
                yield {"kind": kind, "method": method, "pairs": other, "full": tier == "thorough"}
            for v in VARIANTS:
                yield {"kind": kind, "method": method, "pairs": kind, "variant": v, "full": tier == "thorough"}
    for kind in ("static", "poisson"):
        for method in ("direct", "schur", "global"):
            yield {"kind": kind, "method": method, "cycles": CYCLES}
            for first in list(RUNS) + ["method", "refresh"]:
                yield {"kind": kind, "method": method, "depth": depth, "first": first}
            for other in [kind] + [k for k in ("static", "dynamic", "wave") if k != kind]:
                yield {"kind": kind, "method": method, "pairs": other, "full": tier == "thorough"}
            for v in VARIANTS:
                if v != "dt":
                    yield {"kind": kind, "method": method, "pairs": kind, "variant": v, "full": tier == "thorough"}


def warmup(mode):
    import conmech.simulations.problem_solver  # only imported, nothing is run in the parent process


def make(kind, method, problem=None, name=None):
    from conmech.simulations import problem_solver as ps

    over = variant(kind, name)
    if problem is None and kind in ("static", "poisson"):
        arrays = over.pop("arrays", None) or meshref.get_mesh(over.pop("mesh", "square4"))
        contact, dirichlet, value, _ = ts.SETUPS[over.pop("setup", "bottom/top tilted")]
        fi, fo = ts.loads(kind, over.pop("load", "push"))
        law = over.pop("conmech_law", None) or laws.LAWS["relu"]().conmech()
        kw = {k: over[k] for k in ("mu", "la") if k in over}
        if kind == "static":
            kw["law"] = law
        else:
            kw["law2"] = None if method == "direct" else law
        bd = {"contact": contact, "dirichlet": dirichlet if value is None else (dirichlet, value)}
        problem = pb.make_problem(kind, arrays, bd, inner=fi, outer=fo, **kw)
    elif problem is None:
        problem = tr.make(kind, method, problem_only=True, **over)
    cls = {
        "static": ps.StaticSolver,
        "poisson": ps.PoissonSolver,
        "quasistatic": ps.TimeDependentSolver,
        "dynamic": ps.TimeDependentSolver,
        "relaxation": ps.QuasistaticRelaxation,
        "wave": ps.WaveSolver,
        "temperature": ps.TemperatureTimeDependentSolver,
        "piezo_q": ps.PiezoelectricTimeDependentSolver,
        "piezo_d": ps.PiezoelectricTimeDependentSolver,
    }[kind]
    return cls(problem, method), problem


def alone(kind, method, name=None):
    """Results of every run, each on a new solver in its own process."""
    return {r: core.isolated(lambda r=r: go(kind, make(kind, method, name=name)[0], r)) for r in RUNS}


def go(kind, solver, run):
    coupled = kind in COUPLED and solver.solving_method != "direct" and os.environ.get("VERIF_TIER") != "thorough"
    init, steps = (SHORT if coupled else RUNS)[run]
    data = tr.start(kind, init)
    if kind == "poisson":
        return [tr.fields(kind, s) for s in pb.solve(kind, solver)]
    if kind == "static":
        return [tr.fields(kind, s) for s in pb.solve(kind, solver, u0=data["u0"])]
    return [
        tr.fields(kind, s)
        for s in pb.solve(kind, solver, n_steps=steps, output_step=list(range(1, steps + 1)), **data)
    ]


def same(ctx, got, want, what, **case):
    if ctx.check(len(got) == len(want), "number of states", **case):
        for g, w in zip(got, want):
            ctx.close(g, w, what, 1e-9, **case)


def run(job, ctx):
    ctx.sample(job)
    kind, method = job["kind"], job["method"]
    want = alone(kind, method)
    for r in RUNS:
        for k, f in enumerate(want[r]):
            ctx.state((kind, method, r, k, f))
    if job.get("pairs"):
        return pairs(job, ctx, want)
    ops = list(RUNS) + ["method", "refresh"]
    if job.get("cycles"):
        words = [w for n in (1, 2) for w in itertools.product(ops, repeat=n) if set(w) & set(RUNS)]
        seqs = [(w * job["cycles"])[: job["cycles"]] for w in words]
    else:
        seqs = [
            (job["first"],) + rest
            for length in range(1, job["depth"] + 1)
            for rest in itertools.product(ops, repeat=length - 1)
        ]
    for seq in seqs:
        if seq[-1] not in RUNS and not job.get("cycles"):
            continue  # covered by the longer sequences that end in a run
        solver, _ = make(kind, method)
        for k, op in enumerate(seq):
            if op == "method":
                solver.solving_method = method
            elif op == "refresh":
                solver.refresh_solvers()
            else:
                same(ctx, go(kind, solver, op), want[op], "run on a used solver", history=seq[: k + 1])
            ctx.step()
        ctx.trace()
        ctx.outcome((kind, seq))


def pairs(job, ctx, want):
    kind, method = job["kind"], job["method"]
    names = list(RUNS)
    for other in [job["pairs"]]:
        om = method if other == kind else "schur"
        name = job.get("variant")
        owant = want if other == kind and name is None else alone(other, om, name)
        for shared in (True, False) if other == kind and name is None else (False,):
            for a, b in itertools.product(names, repeat=2):
                if not job["full"] and (names.index(a) - names.index(b)) % 3 != 1:
                    continue
                # order in which the four events (construct A, construct B, run A, run B) and second runs happen
                short = kind in COUPLED and method != "direct" and not job["full"]
                for order in ORDERS[:4] if short else ORDERS:
                    sol = {}
                    problem = None
                    for ev in order:
                        if ev == "A":
                            sol["a"], problem = make(kind, method)
                        elif ev == "B":
                            sol["b"], _ = make(other, om, problem if shared else None, name)
                        elif ev == "a":
                            same(ctx, go(kind, sol["a"], a), want[a], "run beside another solver", order=order, other=other, variant=name)
                        else:
                            same(ctx, go(other, sol["b"], b), owant[b], "run beside another solver", order=order, other=other, variant=name)
                        ctx.step()
                    ctx.trace()
                    ctx.outcome((kind, other, name, shared, order))
