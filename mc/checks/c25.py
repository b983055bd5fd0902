"""C25: density updates: the solver always answers for the last density."""
import itertools

import numpy as np

from mc import laws, meshref, meshes, problems as pb, refdyn, reffem, timespace as ts

MODES = ["py"]
CHUNK = 1
DENSITIES = {
    "ones": lambda n: np.ones(n),
    "double": lambda n: np.full(n, 2.0),
    "ramp": lambda n: 0.5 + 0.25 * np.arange(n),
    "holes": lambda n: np.where(np.arange(n) % 2 == 0, 1.0, 0.1),
    "reset": lambda n: None,
}
# orders of magnitude, and almost void elements; explored in short sequences together with the others
EXTREME = {
    "faint": lambda n: np.full(n, 1e-3),
    "heavy": lambda n: np.full(n, 1e3),
    "void": lambda n: np.where(np.arange(n) % 2 == 0, 1e-4, 1.0),
}
ALL = {**DENSITIES, **EXTREME}
MESHES = ["square2", "square4", "lshape", "dart", "strip3"]
SETUPS = ["bottom/top", "bottom/top tilted", "none/left", "right/left"]


def bounds(tier):
    return {
        "histories": "all sequences of density updates of length <= " + ("4" if tier == "thorough" else "3")
        + " over 5 densities and of length <= 2 with 3 extreme ones (1e-4 to 1e3), solving after each update or only at the end, from two initial guesses, with a new array per update and with one array that is changed in place",
        "long histories": "every word of length <= 2 repeated to 16 updates (direct)",
        "meshes": MESHES,
        "methods": ["direct", "schur", "global (square2)"],
        "boundaries": SETUPS,
    }


def jobs(tier, mode):
    depth = 4 if tier == "thorough" else 3
    for mesh, setup in itertools.product(MESHES, SETUPS):
        for method in ("direct", "schur", "global"):
            if method == "global" and mesh != "square2":
                continue
            if method == "direct":
                yield {"mesh": mesh, "setup": setup, "method": method, "depth": 2, "repeat": 16}
            yield {"mesh": mesh, "setup": setup, "method": method, "depth": depth if method == "direct" or tier == "thorough" else 2}


def make(job, law):
    from conmech.simulations.problem_solver import NonHomogenousSolver

    contact, dirichlet, value, _ = ts.SETUPS[job["setup"]]
    fi, fo = (lambda x, t: ts.LOADS["push"][0](x, 0.2)), (lambda x, t: ts.LOADS["push"][1](x, 0.2))
    bd = {"contact": contact, "dirichlet": dirichlet if value is None else (dirichlet, value)}
    problem = pb.make_problem("static", meshref.get_mesh(job["mesh"]), bd, inner=fi, outer=fo, law=law.conmech() if law else None)
    return NonHomogenousSolver(problem, job["method"]), (contact, dirichlet, value, fi, fo)


def run(job, ctx):
    ctx.sample(job)
    law = None if job["method"] == "direct" else laws.LAWS["relu"]()
    ref = meshref.MeshRef(*meshref.get_mesh(job["mesh"]))
    wanted = {}

    def want(solver, parts, name):
        mesh = solver.body.mesh
        if name not in wanted:
            contact, dirichlet, value, fi, fo = parts
            par = {"mu": 4.0, "la": 3.0}
            model = refdyn.RefModel("static", mesh, ref, contact, dirichlet, value, par, fi, fo, law)
            model.fem = reffem.RefFem(mesh.nodes, mesh.elements, ALL[name](len(mesh.elements)))
            A = model.fem.isotropic(4.0, 3.0)
            wanted[name] = model.minimise(A, model.force(0), np.zeros(2 * model.n), 0.0, law)
        return wanted[name]

    tol = 1e-8 if job["method"] == "direct" else 2e-4
    for length in range(0, job["depth"] + 1):
        every = list(itertools.product(DENSITIES, repeat=length))
        if length == 1 or length == 2 and job["method"] == "direct":
            every += [q for q in itertools.product(ALL, repeat=length) if set(q) & set(EXTREME)]
        if "repeat" in job:
            every = [(q * job["repeat"])[: job["repeat"]] for q in itertools.product(DENSITIES, repeat=length) if q]
        for seq in every:
            for lazy, reused in ((False, False), (True, False), (False, True)):
                if (lazy or reused) and (length < 2 or set(seq) & set(EXTREME)):
                    continue
                solver, parts = make(job, law)
                n = len(solver.body.mesh.elements)
                given = []
                array = np.zeros(n)  # updated in place when the caller reuses one array
                for k, name in enumerate(("reset",) + seq):
                    if k:
                        d = ALL[name](n)
                        if reused and d is not None:
                            array[:] = d
                            d = array
                            given.clear()
                        given.append((d, None if d is None else d.copy()))
                        solver.update_density(d)
                    if lazy and k < length:
                        continue
                    s = pb.solve("static", solver, u0=None if k % 2 else ts.u_bent)[0]
                    ctx.close(pb.vec(s.displacement), want(solver, parts, name), "solution for the last density", tol, seq=seq)
                    ctx.step()
                    ctx.state((job["mesh"], job["setup"], job["method"], name, k))
                    ctx.outcome((name, s.displacement))
                for a, b in given:
                    ctx.check(a is None or np.array_equal(a, b), "the given density was changed")
                ctx.check(solver.solving_method == {"global": "global optimization"}.get(job["method"], job["method"]), "method")
                ctx.trace()
