"""C22: without loads, a body never gains energy, for any time step and any number of steps."""
import itertools

import numpy as np

from mc import laws, meshref, problems as pb, refdyn, reffem, timespace as ts

MODES = ["py"]
CHUNK = 1
KINDS = ["dynamic", "quasistatic", "wave", "temperature", "piezo_q", "piezo_d"]
SETUPS = ["bottom/top", "right/left", "none/left", "bottom/none"]
MESHES = ["square2", "square4", "lshape", "dart"]
DTS = [4.0, 1.0, 0.1, 0.01]
LAWS = {"wave": ["zero", "relu", "spring"]}
PM = np.array([[1.0, 0.2], [0.2, 2.0]])


def bounds(tier):
    return {
        "kinds": KINDS,
        "setups": SETUPS,
        "meshes": MESHES,
        "time steps": DTS,
        "initial data": "bent, spun, moving, and every single nodal displacement or velocity (square2)",
        "laws": ["zero", "relu", "friction", "spring (wave)"],
        "steps": 20 if tier == "thorough" else 8,
    }


def jobs(tier, mode):
    t = tier == "thorough"
    for kind, mesh, setup in itertools.product(KINDS, MESHES, SETUPS):
        if kind in ("quasistatic", "piezo_q") and setup == "bottom/none":
            continue
        if kind.startswith("piezo") and mesh == "dart":
            continue  # no facet to hold the potential
        coupled = kind in ("temperature", "piezo_q", "piezo_d")
        if coupled and not t and (mesh in ("square4", "lshape") and setup != "bottom/top"):
            continue
        for law in LAWS.get(kind, ["zero", "relu", "friction"]):
            for dt in DTS:
                big = mesh in ("square4", "lshape")
                if dt > 1 and setup == "bottom/none":
                    continue  # a free body: the tolerance of the minimiser exceeds what the step takes away
                if not t and (big and dt == 0.01 or coupled and dt == 0.1 or mesh == "dart" and dt == 1.0 or big and dt == 1.0 and law == "friction" or coupled and dt == 4.0 and law == "relu" or big and law == "zero"):
                    continue
                yield {"kind": kind, "mesh": mesh, "setup": setup, "law": law, "dt": dt, "steps": 20 if t else 5 if coupled else 8, "full": t}


def run(job, ctx):
    ctx.sample(job)
    kind, dt, steps = job["kind"], job["dt"], job["steps"]
    arrays = meshref.get_mesh(job["mesh"])
    contact, dirichlet, _, _ = ts.SETUPS[job["setup"]]
    bd = {"contact": contact, "dirichlet": dirichlet}
    if kind.startswith("piezo"):
        bd["piezo_dirichlet_0"] = (lambda x: x[1] == 0, lambda x: np.zeros(len(x)))
    kw = dict(law=laws.LAWS[job["law"]]().conmech(), law2=pb.zero_law()(), dt=dt, c=1.5, te=0.2 * pb.TE, tc=pb.TC, pz=0.2 * pb.PZ, pm=PM)
    mk = lambda: pb.make_solver(kind, arrays, bd, "schur", **kw)
    nodes = np.asarray(mk().body.mesh.nodes, dtype=float)
    mesh = mk().body.mesh
    fem = reffem.RefFem(mesh.nodes, mesh.elements)
    n = len(nodes)
    scalar = kind == "wave"
    A = fem.laplace(1.5) if scalar else fem.isotropic(4.0, 3.0)
    M = fem.mass if scalar else fem.vector_mass(0.1 if kind.startswith("piezo") else 1.0)
    held = np.array([bool(dirichlet(x)) and meshref.key(x) in meshref.MeshRef(*arrays).boundary_points for x in nodes])

    def clamp(f):
        def g(x):
            out = np.array(f(x), dtype=float)
            out[held] = 0
            return out

        return g

    starts = [(name, ts.initial(kind, name)) for name in ("bent", "spun", "moving")]
    if job["mesh"] == "square2" or job["full"]:
        free = np.flatnonzero(~held)
        coupled = kind in ("temperature", "piezo_q", "piezo_d")
        for i in free[:1] if coupled and not job["full"] else free:
            for comp in range(1 if scalar else 2):
                e = np.zeros((n, 2))
                e[i, comp] = 0.1
                starts.append((f"unit u {i} {comp}", {"u0": lambda x, e=e: e, "v0": None}))
                if kind in ("dynamic", "wave") or job["full"]:
                    starts.append((f"unit v {i} {comp}", {"u0": None, "v0": lambda x, e=e: -e}))

    def energy(u, v, s):
        k = n if scalar else 2 * n
        u, v = pb.vec(u)[:k], pb.vec(v)[:k]
        e = 0.5 * u @ A @ u
        if kind not in ("quasistatic", "piezo_q"):
            e += 0.5 * v @ M @ v
        if kind == "temperature":
            e += 0.5 * s @ fem.mass @ s
        if kind.startswith("piezo"):
            e += 0.5 * s @ fem.second_order(PM) @ s
        return e

    solver = mk()
    for name, data in starts:
        data = {k: None if data.get(k) is None else clamp(data[k]) for k in ("u0", "v0")}
        s0 = None
        if kind == "temperature":
            s0 = lambda x: np.where(held, 0.0, 0.4 * x[:, 0] - 0.3 * x[:, 1] + 0.1)
        states = pb.solve(kind, solver, n_steps=steps, output_step=list(range(0, steps + 1)), s0=s0, **data)
        last = None
        for k, s in enumerate(states):
            pot = s.temperature if kind == "temperature" else s.electric_potential if kind.startswith("piezo") else None
            pot = None if pot is None else np.asarray(pot, dtype=float).reshape(-1)
            if kind.startswith("piezo") and k == 0:
                last = None  # the potential given at the beginning need not fit the displacement
                continue
            e = energy(s.displacement, s.velocity, pot)
            if last is not None:
                scale = max(last, first, 1e-12)
                ctx.maxerr["energy gained"] = max(ctx.maxerr.get("energy gained", 0.0), (e - last) / scale)
                ctx.check(
                    e <= last + 1e-4 * scale + 1e-9, f"the body gained energy ({kind})", before=last, after=e, step=k, start=name
                )
            else:
                first = e
            last = e
            ctx.step()
            ctx.state((job, name, k, np.round(e, 8)))
        ctx.check(np.all(np.isfinite(last)), "energy is finite")
        ctx.trace()
        ctx.outcome((kind, name, last < 0.5 * first))
