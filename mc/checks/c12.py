"""C12: coupled (thermal, piezoelectric) steps satisfy both equations."""
import itertools

import numpy as np

from mc import laws, meshref, problems as pb, refdyn, reffem, timespace as ts
from mc.checks import c11
from mc.checks.c08 import components, on

MODES = ["py", "jit"]
CHUNK = 1
MESHES = ["square2", "square4", "lshape", "dart"]
KINDS = ["temperature", "piezo_q", "piezo_d"]
SETUPS = ["bottom/top", "bottom/top tilted", "left/right", "right/left", "none/left", "bottom/none", "bottom/left"]
ELECTRIC = {
    "bottom": {"": (lambda x: x[1] == 0, lambda x: 0.5 + x[:, 0])},
    "left+right": {
        "_0": (lambda x: x[0] == 0, lambda x: 0.2 * x[:, 1]),
        "_1": (lambda x: False, lambda x: np.zeros(len(x))),
        "_2": (lambda x: x[0] >= 2.0 or x[0] == 1.0 and x[1] not in (0.0, 1.0), lambda x: np.full(len(x), -0.7)),
    },
}
COUPLING = 0.2
PM = np.array([[1.0, 0.2], [0.2, 2.0]])
TENSORS = [  # conductivity, permittivity: asymmetric, indefinite off-diagonal, anisotropic, tiny
    np.array([[1.0, 0.6], [0.0, 2.0]]),
    np.array([[1.0, 0.0], [-0.7, 1.5]]),
    np.array([[2.0, -0.5], [-0.5, 0.3]]),
    np.array([[1e-3, 0.0], [0.0, 2e-3]]),
]
AMPLITUDES = [1e-9, 1e-4, 1e3]
ASSUMPTIONS = [
    "the fixed point iteration between the two equations stops after 5 to 10 rounds: the momentum balance is compared "
    "with tolerance 1e-4, for weak coupling; the heat and charge balances follow exactly from the returned motion"
]


def bounds(tier):
    return {
        "kinds": KINDS,
        "meshes": MESHES,
        "methods": "schur, direct (temperature, piezo_d), global (" + ("all" if tier == "thorough" else "square2, dart") + ")",
        "moving Dirichlet ends of contact edges (schur)": sorted(c11.DRIVEN),
        "configurations": "7 boundary descriptions x 2 electric conditions x 2 loads x 3 initial data x 2 time steps x "
        "contact laws none/relu/stick x heat or charge contact none/spring",
        "coupling tensors": "generic, each coefficient alone",
        "conductivity and permittivity (direct)": "symmetric, 4 further tensors (asymmetric, anisotropic, tiny)",
        "amplitudes of all data (direct)": AMPLITUDES + [1.0],
        "steps": 3,
    }


BOTH = [
    {"kind": "temperature", "method": "schur", "mesh": "square2", "law": "relu", "setup": "bottom/top tilted", "full": False},
    {"kind": "piezo_q", "method": "schur", "mesh": "square2", "law": "relu", "setup": "left/right", "full": False},
    {"kind": "piezo_d", "method": "schur", "mesh": "dart", "law": "zero", "setup": "bottom/top", "full": False},
]


def jobs(tier, mode):
    yield from BOTH
    if mode == "jit":
        return
    t = tier == "thorough"
    for kind, mesh, setup in itertools.product(KINDS, MESHES[2:] + MESHES[:2], SETUPS):
        for method in ("direct", "schur", "global"):
            if method == "direct" and kind == "piezo_q":
                continue
            if method == "global" and not (t or mesh in ("square2", "dart") and setup in ("bottom/top tilted", "none/left")):
                continue
            for law in ["none"] if method == "direct" else ["relu", "stick"]:
                yield {"kind": kind, "method": method, "mesh": mesh, "law": law, "setup": setup, "full": t}
    for kind, mesh, setup in itertools.product(KINDS, MESHES, c11.DRIVEN):
        if mesh == "lshape" and not t:
            continue
        yield {"kind": kind, "method": "schur", "mesh": mesh, "law": "friction", "setup": setup, "full": t}


def warmup(mode):
    pass


def tensors(kind, full):
    """Coupling tensors: the generic ones, then each coefficient alone."""
    base = pb.TE if kind == "temperature" else pb.PZ
    yield COUPLING * base
    if full:
        for k in range(base.size):
            a = np.zeros(base.size)
            a[k] = COUPLING
            yield a.reshape(base.shape)


def scaled(f, amp):
    return f if f is None or amp == 1.0 else (lambda *a: amp * f(*a))


def one(
    ctx, kind, mesh_name, method, law, law2, setup, load, init, dt, coupling, electric, steps=3, tc=pb.TC, pm=PM, amp=1.0
):
    arrays = meshref.get_mesh(mesh_name)
    contact, dirichlet, value, _ = c11.SETUPS[setup]
    ref = meshref.MeshRef(*arrays)
    fi, fo = (scaled(f, amp) for f in ts.loads(kind, load))
    value = scaled(value, amp)
    L = None if law == "none" else laws.LAWS[law]()
    L2 = None if method == "direct" else laws.LAWS[law2]()
    base = "quasistatic" if kind == "piezo_q" else "dynamic"
    par = dict(ts.MATERIAL, rho=1.0 if kind == "temperature" else 0.1)
    bd = {"contact": contact, "dirichlet": dirichlet if value is None else (dirichlet, value)}
    conds = {k: (c, scaled(v, amp)) for k, (c, v) in ELECTRIC[electric].items()} if kind != "temperature" else {}
    mk = lambda mesh: refdyn.RefModel(base, mesh, ref, contact, dirichlet, value, par, fi, fo, L)
    m0 = mk(c11.ref_mesh(ref))
    if c11.unsolvable(m0, dt):
        return
    touches = any(set(f) & set(m0.dnodes) for f, _, _ in m0.contact)
    if touches and method != "direct" and init != "driven":
        if method != "schur" or value is not None or ts.INITIAL[init][1] is not None:
            return
    if touches and law2 != "zero":
        return
    if kind != "temperature":
        sets = [on(ref, c) for c, _ in conds.values()]
        held = set().union(*sets)
        if len(held) < sum(len(x) for x in sets) or any(not part & held for part in components(ref)):
            return
        if law2 != "zero" and any(set(f) & held for f in ref.classify_facets(contact, dirichlet)[0]):
            return  # contact facets that touch prescribed nodes: see C10
        for suffix, cond in conds.items():
            bd["piezo_dirichlet" + suffix] = cond
    kw = {"te": coupling, "tc": tc} if kind == "temperature" else {"pz": coupling, "pm": pm}
    solver = pb.make_solver(
        kind, arrays, bd, method, inner=fi, outer=fo, law=L.conmech() if L else None,
        law2=L2.conmech() if L2 else None, dt=dt, **ts.MATERIAL, **kw,
    )
    mesh = solver.body.mesh
    nodes = np.asarray(mesh.nodes, dtype=float)
    data = {"u0": None, "v0": c11.v_driven(setup)} if init == "driven" else ts.initial(kind, init)
    data.pop("b0", None)
    data = {k: scaled(f, amp) for k, f in data.items()}
    s0 = None if init == "rest" else scaled(lambda x: 0.4 * x[:, 0] - 0.3 * x[:, 1] + 0.1, amp)
    states = pb.solve(kind, solver, n_steps=steps, output_step=list(range(1, steps + 1)), s0=s0, **data)
    model = mk(mesh)
    fem = model.fem
    kk = meshref.keys(nodes)
    if kind == "temperature":
        E, K, M1 = fem.expansion(coupling), fem.second_order(tc), fem.mass
        lhs2 = M1 / dt + K
        fixed2, values2 = model.dnodes, model.dvalues
    else:
        E = fem.piezo(coupling)
        lhs2 = fem.second_order(pm)
        fixed2, values2 = [], []
        for c, v in conds.values():
            there = on(ref, c)
            idx = [i for i, p in enumerate(kk) if p in there]
            fixed2 += idx
            values2 += list(v(nodes[idx])) if idx else []
        fixed2, values2 = np.array(fixed2, dtype=int), np.array(values2)
    field = lambda f: np.zeros(nodes.shape) if f is None else f(nodes)
    u, v = (pb.vec(field(data[k])) for k in ("u0", "v0"))
    s = np.zeros(len(nodes)) if s0 is None else s0(nodes)
    t = 0.0
    case = dict(mesh=mesh_name, setup=setup, load=load, init=init, dt=dt, electric=electric, law2=law2, tc=tc, pm=pm, amp=amp)
    what = f"{kind}, {method}, {law}"
    for k, st in enumerate(states, 1):
        gu, gv = pb.vec(st.displacement), pb.vec(st.velocity)
        gs = np.asarray(st.temperature if kind == "temperature" else st.electric_potential, dtype=float).reshape(-1)
        t += dt
        ctx.close(gu, u + dt * gv, "displacement follows velocity", 1e-12, scale=amp, **case)
        ctx.close(st.displaced_nodes, nodes + st.displacement, "position of displaced nodes", 1e-12, **case)
        ctx.close(st.time, t, "time", 1e-12, **case)
        lhs, rhs, seen = model.system(u, v, None, t, dt)
        if kind == "temperature":
            rhs = rhs + E.T @ gs
            rhs2 = M1 @ s / dt - E @ gv
        else:
            rhs = rhs - E.T @ gs
            rhs2 = E @ gu
        want_v = model.minimise(lhs, rhs, seen, dt, L)
        ctx.close(gv, want_v, f"momentum balance ({what})", 1e-4, scale=0.1 * amp, step=k, **case)
        m2 = mk(mesh)
        m2.dnodes, m2.dvalues = fixed2, values2
        want_s = m2.minimise(lhs2, rhs2, gu[: len(nodes)], dt, L2, width=1)
        ctx.close(gs, want_s, f"second balance ({what})", 1e-9 if method == "direct" else 2e-4, scale=0.1 * amp, step=k, **case)
        u, v, s = gu, gv, gs
        ctx.step()
        ctx.state((kind, mesh_name, method, law, law2, setup, load, init, dt, electric, tc, pm, amp, k, np.round(gs / amp, 4)))
        ctx.outcome((kind, np.sign(np.round(gs / amp, 3)).tolist()))
        ctx.observe(np.concatenate((gu, gs)))
    ctx.trace()


def run(job, ctx):
    ctx.sample(job)
    kind, full, method = job["kind"], job["full"], job["method"]
    electrics = list(ELECTRIC) if kind != "temperature" else [None]
    combos = [("push", "moving", 0.25), ("swing", "bent", 0.1)]
    if method == "direct" and job["setup"] != "bottom/none":
        combos.append(("swing", "moving", 1.0))
    if full:
        combos = list(itertools.product(["push", "swing"], ["rest", "bent", "moving"], [0.25, 0.1]))
        combos += [("push", "moving", 1.0)] * (job["setup"] != "bottom/none")
    if job["setup"] in c11.DRIVEN:
        combos = [(load, "driven", dt) for load in (["push", "swing"] if full else ["push"]) for dt in (0.25, 0.1)]
    law2s = ["zero", "spring"] if full or job["law"] == "stick" else ["zero"]
    if method == "direct":
        law2s = ["zero"]
    for electric, (load, init, dt), law2 in itertools.product(electrics, combos, law2s):
        for c in tensors(kind, method == "direct" and job["mesh"] in ("square2", "dart")):
            one(ctx, kind, job["mesh"], method, job["law"], law2, job["setup"], load, init, dt, c, electric)
        if method != "direct":
            continue
        if not full and (load, init, dt) != combos[0]:
            continue
        c = next(tensors(kind, False))
        for tc in TENSORS[: len(TENSORS) if kind == "temperature" else 3]:  # tiny permittivity: strong coupling
            one(ctx, kind, job["mesh"], method, job["law"], law2, job["setup"], load, init, dt, c, electric, tc=tc, pm=tc)
        for amp in AMPLITUDES:
            one(ctx, kind, job["mesh"], method, job["law"], law2, job["setup"], load, init, dt, c, electric, amp=amp)
