"""C06: assembled operators are the exact integrals of the P1 basis."""
import itertools

import numpy as np

from mc import boundary_space as bs
from mc import meshes, meshref, reffem

MODES = ["py", "jit"]
NAMED = list(meshes.catalogue_2d()) + list(meshes.catalogue_3d())


def bounds(tier):
    return {
        "meshes": "18 named meshes in 3 numberings and 3 positions, all 255 + 63 sub-complexes, every vertex order "
        "of a single triangle and tetrahedron",
        "materials": "every unit coefficient of every material tensor and one combination of all (operators are "
        "linear in the coefficients)",
        "relaxation times": "all time sequences of length <= 3 over three times; all sequences of 3 over two times and "
        "changes of the element densities, with a described tensor that is one overwritten array",
    }


def jobs(tier, mode):
    if mode == "jit":
        for m in ["tri", "square4", "lshape", "tet2", "box1"]:
            yield {"kind": "named", "mesh": m, "renumber": -1, "full": True}
        yield {"kind": "named", "mesh": "large", "renumber": -1, "full": False}  # compared in full, but only compiled
        return
    t = tier == "thorough"
    for m in NAMED:
        for r in (0, -1, 2):
            yield {"kind": "named", "mesh": m, "renumber": r, "full": t or len(meshref.get_mesh(m)[0]) < 12}
    yield {"kind": "named", "mesh": "row", "renumber": -1, "full": False}
    for dim, top in ((2, 256), (3, 64)):
        for lo in range(1, top, 8):
            yield {"kind": "sub", "dim": dim, "lo": lo, "hi": min(lo + 8, top), "full": t}
    for m in ("tri", "tri_obtuse", "tet"):
        yield {"kind": "vertex", "mesh": m, "full": True}


def unit(shape, full):
    """All unit tensors of a shape and a generic one."""
    n = int(np.prod(shape))
    generic = (np.arange(n) * 0.7 + 1.3).reshape(shape) * np.where(np.arange(n) % 3 == 1, -1, 1).reshape(shape)
    if full:
        for k in range(n):
            a = np.zeros(n)
            a[k] = 1.0
            yield a.reshape(shape)
    yield generic


def make(nodes, elements, props, position=None):
    from conmech.dynamics.dynamics import Dynamics
    from conmech.mesh.boundaries_description import BoundariesDescription
    from conmech.mesh.mesh import Mesh
    from conmech.simulations.problem_solver import Body

    mesh = Mesh(
        mesh_descr=meshes.array_description(nodes, elements, position),
        boundaries_description=BoundariesDescription(
            contact=meshref.PREDICATES["y0"], dirichlet=meshref.PREDICATES["x0"]
        ),
    )
    body = Body(props, mesh)
    Dynamics(body)
    return body


def data(op):
    return np.asarray(getattr(op, "data", op) if not isinstance(op, np.ndarray) else op, dtype=float)


def warmup(mode):
    from conmech.properties.body_properties import ElasticProperties

    for m in ("tri", "tet"):
        make(*meshref.get_mesh(m), ElasticProperties(1.0, 1.0, 1.0))


def explore(ctx, name, nodes, elements, position, full):
    from conmech.properties import body_properties as bp

    d = nodes.shape[1]
    pos = None if position is None else np.array(position[:d])
    cache = {}

    def check(props, ops):
        body = make(nodes, elements, props, pos)
        if "fem" not in cache:
            cache["fem"] = reffem.RefFem(body.mesh.nodes, body.mesh.elements)
            cache["nodes"] = body.mesh.nodes.copy()
        fem = cache["fem"]
        assert np.array_equal(cache["nodes"], body.mesh.nodes), "numbering changed between builds"
        dyn = body.dynamics
        ctx.trace()
        ctx.step(len(ops) + 3)
        for attr, want in ops.items():
            got = data(getattr(dyn, attr))
            w = want(fem)
            ctx.close(got, w, attr, 1e-8, case=name, props=repr(props))
            ctx.outcome((attr, float(np.abs(got).sum())))
        ctx.close(data(dyn.acceleration_operator), fem.vector_mass(props.mass_density), "acceleration", 1e-8, case=name)
        ctx.close(data(dyn.volume_at_nodes).sum(), fem.volumes.sum(), "total volume", 1e-8, case=name)
        ctx.close(np.asarray(dyn.element_initial_volume), fem.volumes, "element volumes", 1e-8, case=name)
        ctx.state((name, repr(props)))
        return body

    for mu, la, th, ze, rho in ((1.0, 0.0, 0.0, 1.0, 1.0), (0.0, 1.0, 1.0, 0.0, 0.1), (3.0, 0.7, 2.5, 11.0, 2.0)):
        body = check(
            bp.ViscoelasticProperties(mass_density=rho, mu=mu, lambda_=la, theta=th, zeta=ze),
            {
                "elasticity": lambda f, a=mu, b=la: f.isotropic(a, b),
                "viscosity": lambda f, a=th, b=ze: f.isotropic(a, b),
            },
        )
        ctx.observe(data(body.dynamics.elasticity))
    check(bp.ElasticProperties(mass_density=1.5, mu=2.0, lambda_=3.0), {"elasticity": lambda f: f.isotropic(2.0, 3.0)})
    for c in (1.0, 3.0):
        check(
            bp.MembraneProperties(mass_density=0.5, propagation=c), {"poisson_operator": lambda f, c=c: f.laplace(c)}
        )
    for te, tc in zip(unit((d, d), full), list(unit((d, d), full))[::-1]):
        check(
            bp.ViscoelasticTemperatureProperties(
                mass_density=1.0, mu=2.0, lambda_=3.0, theta=4.0, zeta=5.0, thermal_expansion=te, thermal_conductivity=tc
            ),
            {
                "elasticity": lambda f: f.isotropic(2.0, 3.0),
                "viscosity": lambda f: f.isotropic(4.0, 5.0),
                "thermal_expansion": lambda f, te=te: f.expansion(te),
                "thermal_conductivity": lambda f, tc=tc: f.second_order(tc),
            },
        )
    if d == 2:
        perm = itertools.cycle(list(unit((2, 2), True)))
        for pz, pm in zip(unit((2, 2, 2), full), perm):
            check(
                bp.ViscoelasticPiezoelectricProperties(
                    mass_density=0.1, mu=2.0, lambda_=3.0, theta=4.0, zeta=5.0, piezoelectricity=pz, permittivity=pm
                ),
                {
                    "elasticity": lambda f: f.isotropic(2.0, 3.0),
                    "piezoelectricity": lambda f, pz=pz: f.piezo(pz),
                    "permittivity": lambda f, pm=pm: f.second_order(pm),
                },
            )
        tensors = list(unit((2, 2, 2), full))
        times = (0.0, 0.5, 1.0)
        for base in tensors:
            scale = {0.0: 1.0, 0.5: -2.0, 1.0: 0.25}
            body = check(
                bp.ElasticRelaxationProperties(
                    mass_density=1.0, mu=1.0, lambda_=1.0, relaxation=lambda t, b=base: b * scale[t]
                ),
                {"elasticity": lambda f: f.isotropic(1.0, 1.0)},
            )
            want = cache["fem"].relaxation(base)
            for n in (1, 2, 3):
                for seq in itertools.product(times, repeat=n) if full else [times[:n], times[::-1][:n]]:
                    for t in seq:
                        got = data(body.dynamics.relaxation(t))
                        ctx.step()
                        ctx.close(got, scale[t] * want, "relaxation operator", 1e-8, case=name, seq=seq)
        # a described tensor may be one array that is overwritten, and elements may get densities
        base, shared = tensors[-1], np.zeros((2, 2, 2))

        def overwritten(t):
            shared[:] = scale[t] * base
            return shared

        props = bp.ElasticRelaxationProperties(mass_density=1.0, mu=1.0, lambda_=1.0, relaxation=overwritten)
        body = make(nodes, elements, props, pos)
        fem = cache["fem"]
        rho = np.arange(len(fem.elements)) % 3 + 0.5
        weighted = reffem.RefFem(body.mesh.nodes, body.mesh.elements, rho)
        for seq in itertools.product(times[:2] + ("plain", "dense"), repeat=3):
            dense = False
            body.dynamics.reinitialize_matrices(None)
            for t in seq:
                ctx.step()
                if t in ("plain", "dense"):
                    dense = t == "dense"
                    body.dynamics.reinitialize_matrices(rho.copy() if dense else None)
                    continue
                want = (weighted if dense else fem).relaxation(base) * scale[t]
                got = data(body.dynamics.relaxation(t))
                ctx.close(got, want, "relaxation operator of a reused tensor or of element densities", 1e-8, case=name, seq=seq)
        ctx.trace()


POS = [None, (0.0, 0.0, 0.0), (-3.0, 20.5, 1.25)]


def run(job, ctx):
    ctx.sample(job)
    if job["kind"] == "named":
        nodes, elements = bs.renumber(meshref.get_mesh(job["mesh"]), job["renumber"])
        for p in POS:
            explore(ctx, f"{job['mesh']}@{job['renumber']} at {p}", nodes, elements, p, job["full"] and p is None)
    elif job["kind"] == "sub":
        f = meshref.sub_mesh_2d if job["dim"] == 2 else meshref.sub_mesh_3d
        for m in range(job["lo"], job["hi"]):
            explore(ctx, f"s{job['dim']}:{m}", *f(m), None, job["full"])
    else:
        nodes, elements = meshref.get_mesh(job["mesh"])
        for o in itertools.permutations(range(elements.shape[1])):
            explore(ctx, f"{job['mesh']} vertices {o}", nodes, elements[:, list(o)], None, False)
