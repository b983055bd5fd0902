"""C20: a method name selects the solver registered under it, for every problem class and in any case."""
import itertools

import numpy as np

from mc import laws, meshref, problems as pb, timerun as tr, timespace as ts

MODES = ["py"]
CHUNK = 1
NAMES = {
    "schur": "schur",
    "schur complement": "schur",
    "schur complement method": "schur",
    "global": "global optimization",
    "global optimization": "global optimization",
    "direct": "direct",
}
NO_DIRECT = ("quasistatic", "relaxation", "piezo_q")
UNKNOWN = ["", "shur", "schur ", "optimization", "global_optimization", "direct method", "static", "*", "schurcomplement"]
STYLES = {
    "lower": str.lower,
    "upper": str.upper,
    "title": str.title,
    "swapped": lambda s: "".join(c.upper() if i % 2 else c for i, c in enumerate(s)),
}
DYNAMISMS = ["static", "quasistatic", "quasistatic relaxation", "dynamic", "*"]
OF_KIND = {
    "static": "static",
    "poisson": "static",
    "quasistatic": "quasistatic",
    "piezo_q": "quasistatic",
    "relaxation": "quasistatic relaxation",
    "dynamic": "dynamic",
    "wave": "dynamic",
    "temperature": "dynamic",
    "piezo_d": "dynamic",
}


def bounds(tier):
    return {
        "problem classes": pb.KINDS,
        "names": list(NAMES) + ["(unknown) " + u for u in UNKNOWN],
        "styles": list(STYLES),
        "reassignments": "all sequences of " + ("3" if tier == "thorough" else "2") + " names, known and unknown",
        "registrations": "all sequences of <= 3 registrations over 5 dynamisms x {new name, the same in capitals, taken name}",
    }


def jobs(tier, mode):
    for kind in pb.KINDS:
        yield {"what": "names", "kind": kind}
        for first in list(NAMES) + UNKNOWN[:2]:
            yield {"what": "reassign", "kind": kind, "first": first, "depth": 3 if tier == "thorough" else 2}
    for a in DYNAMISMS:
        yield {"what": "register", "first": a}


def problem(kind):
    if kind in ("static", "poisson"):
        contact, dirichlet, value, _ = ts.SETUPS["bottom/top tilted"]
        fi, fo = ts.loads(kind, "push")
        z = laws.LAWS["relu"]().conmech()
        return pb.make_problem(
            kind, meshref.get_mesh("square2"), {"contact": contact, "dirichlet": (dirichlet, value)}, inner=fi, outer=fo,
            law=z, law2=pb.zero_law()(),
        )
    return tr.make(kind, "schur", "square2", problem_only=True)


def solver_class(kind):
    from conmech.simulations import problem_solver as ps

    return {
        "static": ps.StaticSolver,
        "poisson": ps.PoissonSolver,
        "quasistatic": ps.TimeDependentSolver,
        "dynamic": ps.TimeDependentSolver,
        "relaxation": ps.QuasistaticRelaxation,
        "wave": ps.WaveSolver,
        "temperature": ps.TemperatureTimeDependentSolver,
        "piezo_q": ps.PiezoelectricTimeDependentSolver,
        "piezo_d": ps.PiezoelectricTimeDependentSolver,
    }[kind]


def known(kind, name):
    return name in NAMES and not (name == "direct" and kind in NO_DIRECT)


def inner(solver):
    return [s for s in (solver.step_solver, solver.second_step_solver) if s is not None]


def right(ctx, solver, kind, name, **case):
    from conmech import solvers as sv

    want = NAMES[name.lower()]
    ctx.check(solver.solving_method == want, "reported method", got=solver.solving_method, want=want, kind=kind, **case)
    cls = {"schur": sv.SchurComplementOptimization, "global optimization": sv.GlobalOptimization, "direct": sv.Direct}[want]
    ctx.check(
        inner(solver) and all(isinstance(s, cls) for s in inner(solver)),
        "class of the step solvers",
        got=[type(s).__name__ for s in inner(solver)],
        want=want,
        kind=kind,
        **case,
    )
    ctx.check(
        len(inner(solver)) == (2 if kind in ("temperature", "piezo_q", "piezo_d") else 1), "number of step solvers", kind=kind
    )


def answer(kind, solver):
    data = tr.start(kind, "rest")
    if kind == "poisson":
        s = pb.solve(kind, solver)[-1]
    elif kind == "static":
        s = pb.solve(kind, solver)[-1]
    else:
        s = pb.solve(kind, solver, n_steps=2, **data)[-1]
    return tr.fields(kind, s)


def run(job, ctx):
    ctx.sample(job)
    globals()[job["what"]](job, ctx)


def names(job, ctx):
    from conmech.solvers import SolversRegistry

    kind = job["kind"]
    p = problem(kind)
    results = {}
    for name in NAMES:
        for style, f in STYLES.items():
            given = f(name)
            if not known(kind, name):
                refused(ctx, lambda: solver_class(kind)(p, given), kind, given)
                refused(ctx, lambda: SolversRegistry.get_by_name(given, p), kind, given)
            else:
                s = solver_class(kind)(p, given)
                right(ctx, s, kind, name, given=given)
                ctx.check(
                    all(type(x) is SolversRegistry.get_by_name(given, p) for x in inner(s)), "class found by name", given=given
                )
                if NAMES[name] != "direct" and style != "title":
                    got = answer(kind, s)
                    want = results.setdefault(NAMES[name], got)
                    ctx.close(got, want, "answer under an alias", 1e-12, kind=kind, given=given)
            ctx.step()
            ctx.trace()
            ctx.state((kind, given))
            ctx.outcome((kind, NAMES[name]))
    for u in UNKNOWN:
        refused(ctx, lambda: solver_class(kind)(p, u), kind, u)
        refused(ctx, lambda: SolversRegistry.get_by_name(u, p), kind, u)
        ctx.step()
        ctx.trace()
        ctx.state((kind, u))


def refused(ctx, f, kind, name):
    try:
        f()
    except Exception:
        return True
    ctx.fail("an unknown method was accepted", kind=kind, name=name)
    return False


def reassign(job, ctx):
    kind = job["kind"]
    for length in range(1, job["depth"] + 1):
        for rest in itertools.product(list(NAMES) + UNKNOWN[:2], repeat=length - 1):
            seq = (job["first"],) + rest
            solver = solver_class(kind)(problem(kind), "schur")
            cur = "schur"
            for name in seq:
                if known(kind, name):
                    solver.solving_method = name.title()
                    cur = name
                else:
                    def assign():
                        solver.solving_method = name

                    refused(ctx, assign, kind, name)
                right(ctx, solver, kind, cur, seq=seq)
                ctx.step()
            ctx.trace()
            ctx.state((kind, seq))
            ctx.outcome((kind, NAMES[cur]))


def register(job, ctx):
    """Every sequence uses names of its own, so that sequences do not meet in the process-wide registry."""
    from conmech.solvers import Direct, SolversRegistry

    probs = {k: problem(k) for k in pb.KINDS}
    builtin = {(k, n): SolversRegistry.get_by_name(n, probs[k]) for k in pb.KINDS for n in NAMES if known(k, n)}
    ops = [(d, n) for d in DYNAMISMS for n in ("new", "NEW", "schur")]
    serial = 0
    for length in (1, 2, 3):
        for n0 in ("new", "NEW", "schur"):
            for rest in itertools.product(ops, repeat=length - 1):
                seq = ((job["first"], n0),) + rest
                serial += 1
                model = {}
                for dyn, name in seq:
                    cls = type("Registered", (Direct,), {})
                    real = {"new": f"mc {job['first']} {serial}", "NEW": f"MC {job['first']} {serial}".upper()}.get(name, name)
                    targets = ["static", "quasistatic", "dynamic"] if dyn == "*" else [dyn]
                    taken = [t for t in targets if name == "schur" or t in model]
                    if taken and len(taken) < len(targets):
                        break  # partly taken: not specified
                    try:
                        back = SolversRegistry.register(dyn, real)(cls)
                        ok = True
                    except Exception:
                        ok = False
                    ctx.check(ok != bool(taken), "a taken name must be refused, a new one accepted", seq=seq)
                    if ok:
                        ctx.check(back is cls, "registration returns the class", seq=seq)
                        for t in targets:
                            model[t] = cls
                    ctx.step()
                for k, p in probs.items():
                    for style in ("lower", "upper"):
                        real = STYLES[style](f"mc {job['first']} {serial}")
                        want = model.get(OF_KIND[k])
                        try:
                            got = SolversRegistry.get_by_name(real, p)
                        except Exception:
                            got = None
                        ctx.check(got is want, "lookup after registrations", seq=seq, kind=k)
                ctx.trace()
                ctx.state(seq)
                ctx.outcome(sorted(model))
    for (k, n), cls in builtin.items():
        ctx.check(SolversRegistry.get_by_name(n, probs[k]) is cls, "a built-in name changed its meaning", kind=k, name=n)
