"""C27: pictures show the state they are asked for, where they are asked to be, and change nothing else."""
import itertools
import os
import shutil
import tempfile

import numpy as np

from mc import meshref, problems as pb, timespace as ts

MODES = ["py"]
CHUNK = 1
MESHES = ["square2", "square4", "dart", "lshape"]
DESCRIPTIONS = {
    "bottom/top": (lambda x: x[1] == 0, lambda x: x[1] >= 1.0),
    "bottom/left": (lambda x: x[1] == 0, lambda x: x[0] == 0),
    "none/left": (lambda x: False, lambda x: x[0] == 0),
    "all/none": (lambda x: True, lambda x: False),
    "none/none": (lambda x: False, lambda x: False),
}
DISPLACEMENTS = {
    "zero": lambda x: np.zeros(x.shape),
    "bent": ts.u_bent,
    "far": lambda x: np.column_stack((3.0 + x[:, 1], -2.0 - 0.5 * x[:, 0])),
}
STYLES = ["plain", "field", "named field", "arrows", "stress", "no original", "black", "given"]
GIVEN = np.array([[0.5, 0.25, 1.0, -2.0], [2.0, 1.0, 0.5, 0.0]])
COUNTS = [0, 1, 2, 999, 1000, 1001, 1100, 1101, 2000, 2101]
PER_TIME = [0, 1, 2, 3, 7, "varying"]


def bounds(tier):
    return {
        "meshes": MESHES,
        "descriptions": sorted(DESCRIPTIONS),
        "displacements": sorted(DISPLACEMENTS),
        "styles": STYLES,
        "drawn": "every ordered pair of states and times on one body, one after the other",
        "one drawer": "every sequence of 2 fields and displacements of one state, plain, with force arrows, black",
        "files": "formats png and svg x given or generated name x directory given or from the timestamp, every sequence of 2 (3) saves",
        "limit points": f"{COUNTS} points, {PER_TIME} per time",
        "columns": "1..5 membrane states, intersections at 3 lines; 3D surfaces",
    }


def jobs(tier, mode):
    for mesh, descr in itertools.product(MESHES, DESCRIPTIONS):
        yield {"what": "draw", "mesh": mesh, "descr": descr}
    for mesh in MESHES[:2]:
        yield {"what": "columns", "mesh": mesh}
        yield {"what": "again", "mesh": mesh}
    yield {"what": "points"}
    for first in range(4):
        yield {"what": "files", "first": first, "depth": 3 if tier == "thorough" else 2}
    yield {"what": "config"}


def run(job, ctx):
    import matplotlib

    matplotlib.use("Agg")
    ctx.sample(job)
    {"draw": draw, "again": again, "columns": columns, "points": points, "files": files, "config": config}[job["what"]](job, ctx)


def force(x, t):
    return np.array([1.0 + x[1] + t, 2.0 * x[0] - t])


def body_of(mesh, descr):
    contact, dirichlet = DESCRIPTIONS[descr]
    return pb.make_solver("static", meshref.get_mesh(mesh), {"contact": contact, "dirichlet": dirichlet}, "direct", outer=force).body


def state_of(body, name, time):
    from conmech.state.state import State

    state = State(body)
    nodes = np.asarray(body.mesh.nodes, dtype=float)
    state.set_displacement(pb.vec(DISPLACEMENTS[name](nodes)), time=time)
    state.constitutive_law = lambda **kw: np.arange(4.0 * len(nodes)).reshape(-1, 2, 2)
    return state


def snapshot(state):
    mesh = state.body.mesh
    arrays = [mesh.nodes, mesh.elements, mesh.contact_boundary, mesh.dirichlet_boundary, mesh.neumann_boundary]
    arrays += [state.displacement, state.displaced_nodes, state.velocity, state.absement]
    return [np.array(a) for a in arrays] + [state.time, sorted(state.products)]


def same(a, b):
    return all(np.array_equal(x, y) for x, y in zip(a, b))


def colour(c):
    from matplotlib.colors import to_hex

    return to_hex(c)


def lines_by_colour(axes):
    """colour -> list of sets of drawn segments, in the order of drawing."""
    from matplotlib.collections import LineCollection

    out = {}
    for c in axes.collections:
        if isinstance(c, LineCollection):
            cols = [colour(x) for x in c.get_colors()]
            for i, seg in enumerate(c.get_segments()):
                out.setdefault(cols[i % len(cols)], set()).add(frozenset(meshref.keys(seg)))
    return out


def draw(job, ctx):
    body = body_of(job["mesh"], job["descr"])
    cases = list(itertools.product(DISPLACEMENTS, (0.0, 0.75)))
    for style in STYLES:
        for a, b in itertools.product(cases, repeat=2):
            if style != "plain" and (a[0] == b[0] or a[1] == b[1]):
                continue
            states = [state_of(body, *a), state_of(body, *b)]
            before = [snapshot(s) for s in states]
            for state in states:
                picture(ctx, job, state, style)
            for k, s in enumerate(states):
                ctx.check(same(before[k], snapshot(s)), "drawing changes a state or its mesh", style=style, states=[a, b])
            ctx.trace()


def picture(ctx, job, state, style):
    import matplotlib.pyplot as plt
    from conmech.helpers.config import Config
    from conmech.plotting.drawer import Drawer

    mesh = state.body.mesh
    nodes = np.asarray(mesh.nodes, dtype=float)
    moved = np.asarray(state.displaced_nodes, dtype=float)
    drawer = Drawer(state=state, config=Config(show=False))
    values = None
    if style == "field":
        drawer.field = values = nodes[:, 0] * 2.0 + nodes[:, 1] ** 2 - 0.3
    elif style == "named field":
        state.temperature = values = 1.0 + nodes[:, 0] - 3.0 * nodes[:, 1]
        drawer.field_name = "temperature"
    elif style == "arrows":
        drawer.outer_forces_scale = 4.0
    elif style == "stress":
        drawer.normal_stress_scale = 2.0
    elif style == "no original":
        drawer.original_mesh_color = None
    elif style == "black":
        drawer.colorful = False
    elif style == "given":
        drawer.x_min, drawer.y_max = -7.0, 11.0
        drawer.outer_forces_scale, drawer.outer_forces_arrows = 4.0, GIVEN.copy()
    fig, axes = drawer.do_draw(colorbar=False)
    case = {"style": style, "moved": moved, "time": state.time}
    ref = meshref.MeshRef(nodes, mesh.elements)
    place = {k: meshref.key(moved[i]) for i, k in enumerate(meshref.keys(nodes))}
    contact, neumann, dirichlet = ref.classify_facets(*DESCRIPTIONS[job["descr"]])
    got = lines_by_colour(axes)
    deformed = {frozenset(place[p] for p in e) for e in ref.edges}
    want = {"#000000": deformed}
    if style != "no original":
        want[colour("0.7")] = set(ref.edges)
    for name, part in (("b", contact), ("r", dirichlet), ("g", neumann)):
        want[colour(name)] = set() if style == "black" else {frozenset(place[p] for p in f) for f in part}
    if values is not None:  # level lines are black, too
        got["#000000"] = got.get("#000000", set()) & deformed
    for c, segs in want.items():
        ctx.check(got.get(c, set()) == segs, "drawn edges of one colour", colour=c, got=sorted(map(sorted, got.get(c, set()))), want=sorted(map(sorted, segs)), **case)
    used = np.vstack((nodes, moved, [[-7.0, nodes[0, 1]], [nodes[0, 0], 11.0]] if style == "given" else nodes[:1]))
    inside(ctx, axes, used, case)
    if style == "given":
        for what, given, limit in (("left", -7.0, axes.get_xlim()[0]), ("upper", 11.0, axes.get_ylim()[1])):
            ctx.check(abs(limit - given) < 8.0, f"a picture does not keep the given {what} limit", limit=limit, **case)
    on = {"arrows": neumann, "stress": contact, "black": dirichlet}.get(style, [])
    arrows(ctx, axes, style, state, on, case)
    if values is not None:
        layers(ctx, axes, moved, np.asarray(mesh.elements), values, case)
    ctx.step()
    ctx.state((job, style, moved, state.time))
    ctx.outcome((style, sorted((c, len(s)) for c, s in got.items())))
    plt.close(fig)


def inside(ctx, axes, used, case):
    for k in (0, 1):
        lo, hi = (axes.get_xlim, axes.get_ylim)[k]()
        ctx.check(
            lo <= used[:, k].min() and used[:, k].max() <= hi,
            "a part of the body is outside the picture",
            axis=k,
            limits=(lo, hi),
            **case,
        )


def arrows(ctx, axes, style, state, facets, case):
    """The arrows of the style, and no others, at the displaced nodes of the facets."""
    from matplotlib.quiver import Quiver

    nodes = np.asarray(state.body.mesh.nodes, dtype=float)
    moved = np.asarray(state.displaced_nodes, dtype=float)
    index = {k: i for i, k in enumerate(meshref.keys(nodes))}
    vector = {
        "arrows": lambda i: force(nodes[i], state.time),
        "stress": lambda i: (0.0, -(4.0 * i + 3)),
        "black": lambda i: (1.0, 0.0),
    }.get(style)
    want = [[*moved[i], *vector(i)] for i in sorted({index[p] for f in facets for p in f})]
    if style == "given":
        want = GIVEN.tolist()
    rows = sorted(map(tuple, np.round(want, 9).tolist())) if len(want) else []
    quivers = [c for c in axes.collections if isinstance(c, Quiver)]
    seen = sorted(tuple(r) for q in quivers for r in np.round(np.column_stack((q.X, q.Y, q.U, q.V)), 9).tolist())
    ctx.check(seen == rows, f"drawn arrows ({style})", got=seen, want=rows, **case)
    if style == "arrows":
        ctx.check(all(q.scale == 4.0 for q in quivers), "scale of the drawn forces", **case)


def layers(ctx, axes, moved, elements, values, case):
    """Every vertex of a filled layer lies where the field is between the levels of the layer, and all layers are there."""
    from matplotlib.contour import ContourSet

    from mc.checks.c18 import interpolate

    filled = [c for c in axes.collections if isinstance(c, ContourSet) and c.filled]
    if not ctx.check(len(filled) == 1, "number of filled contour plots", got=len(filled), **case):
        return
    cs = filled[0]
    lev = np.asarray(cs.levels, dtype=float)
    ctx.check(lev[0] <= values.min() + 1e-9 and values.max() <= lev[-1] + 1e-9, "the layers do not cover the field", **case)
    tol = 1e-6
    seen = 0
    for k, path in enumerate(cs.get_paths()):
        pts = path.vertices[: len(path.vertices)]
        if path.codes is not None:
            pts = pts[path.codes != path.CLOSEPOLY]
        if k % 7:  # a few layers; all use one triangulation
            continue
        for p in pts:
            v = interpolate(moved, elements, values, p)
            if v is None:
                ctx.fail("a layer is drawn outside the body", point=p, **case)
                return
            seen += 1
            if not lev[k] - tol <= v <= lev[k + 1] + tol:
                ctx.fail("a layer is drawn where the field has other values", point=p, value=v, level=(lev[k], lev[k + 1]), **case)
                return
    ctx.check(seen > 0, "nothing is drawn for the field", **case)


def again(job, ctx):
    """One drawer, a state whose fields change between the pictures: every picture shows the current ones."""
    import matplotlib.pyplot as plt

    from conmech.helpers.config import Config
    from conmech.plotting.drawer import Drawer

    body = body_of(job["mesh"], "bottom/top")
    nodes = np.asarray(body.mesh.nodes, dtype=float)
    ref = meshref.MeshRef(nodes, body.mesh.elements)
    fields = [nodes[:, 0] + 2.0 * nodes[:, 1], 3.0 - nodes[:, 0] * nodes[:, 1] - nodes[:, 1], 10.0 + nodes[:, 1]]
    contact, neumann, dirichlet = ref.classify_facets(*DESCRIPTIONS["bottom/top"])
    plain = list(itertools.product(range(3), DISPLACEMENTS))
    for style, seq in [
        (style, seq) for style in ("field", "arrows", "black") for seq in itertools.product(plain, repeat=2)
    ]:
        if style != "field" and (seq[0][0], seq[1][0]) != (0, 1):
            continue
        state = state_of(body, "zero", 0.0)
        drawer = Drawer(state=state, config=Config(show=False))
        if style == "field":
            drawer.field_name = "temperature"
        elif style == "arrows":
            drawer.outer_forces_scale = 4.0
        else:
            drawer.colorful = False
        for k, (i, name) in enumerate(seq):
            state.temperature = fields[i].copy()
            state.set_displacement(pb.vec(DISPLACEMENTS[name](nodes)), time=float(k))
            fig, axes = drawer.do_draw(colorbar=False)
            moved = np.asarray(state.displaced_nodes, dtype=float)
            case = {"style": style, "seq": seq, "picture": k}
            if style == "field":
                layers(ctx, axes, moved, np.asarray(body.mesh.elements), fields[i], case)
            inside(ctx, axes, np.vstack((nodes, moved)), case)
            arrows(ctx, axes, style, state, {"arrows": neumann, "black": dirichlet}.get(style, []), case)
            place = {q: meshref.key(moved[n]) for n, q in enumerate(meshref.keys(nodes))}
            got = lines_by_colour(axes)
            red = set() if style == "black" else {frozenset(place[p] for p in f) for f in dirichlet}
            ctx.check(got.get(colour("r"), set()) == red, "edges of a later picture", **case)
            ctx.step()
            ctx.state((job["mesh"], style, i, name))
            ctx.outcome(("again", style, i, name))
            plt.close(fig)
        ctx.trace()


def points(job, ctx):
    import matplotlib.pyplot as plt

    from conmech.plotting import membrane

    class Prod:
        def __init__(self, data):
            self.data = data

    for count, per in itertools.product(COUNTS, PER_TIME):
        data, k, t = {}, 0, 0.0
        while k < count or t < 0.25:
            m = (int(t / 0.125) % 4) if per == "varying" else per
            if m == 0 and (per == 0 and t > 1.0):
                break
            m = min(m, count - k)
            data[t] = tuple(0.001 + 0.0001 * (k + i) for i in range(m))
            k += m
            t += 0.125
        fig = plt.figure()
        membrane.plot_limit_points(Prod(data), label="zeros", title="limit", finish=False, ylim=(0, 2))
        axes = plt.gca()
        seen = sorted(map(tuple, np.round([p for c in axes.collections for p in c.get_offsets()], 9).tolist()))
        want = sorted((round(t, 9), round(z, 9)) for t, zs in data.items() for z in zs)
        ctx.check(seen == want, "drawn limit points", count=count, per_time=per, drawn=len(seen), expected=len(want))
        labels = [c.get_label() for c in axes.collections if not c.get_label().startswith("_")]
        ctx.check(labels == (["zeros"] if want else []), "label of the limit points", labels=labels, count=count, per_time=per)
        ctx.check(axes.get_title() == "limit" and axes.get_ylim() == (0, 2), "title and limits", count=count)
        ctx.step()
        ctx.trace()
        ctx.state((count, per))
        ctx.outcome((len(seen), labels))
        plt.close(fig)


def columns(job, ctx):
    import matplotlib.pyplot as plt

    from conmech.plotting import membrane
    from mc.checks.c18 import interpolate

    body = body_of(job["mesh"], "bottom/top")
    nodes, elements = np.asarray(body.mesh.nodes, dtype=float), np.asarray(body.mesh.elements)
    fields = [np.where(np.arange(len(nodes)) % (k + 2) == 0, 1.0 + k, -0.5 * k) for k in range(5)]
    states = []
    for k in range(5):
        s = state_of(body, "zero", 0.25 * k)
        s.set_displacement(np.concatenate((fields[k], np.zeros(len(nodes)))), time=0.25 * k)
        s.velocity[:, 0] = fields[-k]
        states.append(s)
    for n, x in itertools.product(range(1, 6), (0.25, 0.5, 0.7)):
        for order in (states[:n], states[:n][::-1]):
            before = [snapshot(s) for s in order]
            membrane.plot_in_columns(order, title="t", finish=False, x=x, zmin=-3, zmax=6)
            fig = plt.gcf()
            ctx.check(len(fig.axes) == n, "number of pictures", got=len(fig.axes), want=n)
            for ax, s in zip(fig.axes, order):
                ctx.check(len(ax.lines) == 1, "number of curves", got=len(ax.lines))
                ys, us = ax.lines[0].get_data()
                want = [interpolate(nodes, elements, s.displacement[:, 0], (x, y)) for y in ys]
                ctx.close(us, want, "drawn intersection", 1e-9, states=n, line=x)
                ctx.check(min(ys) == 0 and max(ys) == 1 and ax.get_ylim() == (-3, 6), "extent of the curve", states=n)
                ctx.step()
                ctx.state((job["mesh"], s.time, x))
                ctx.outcome(np.round(np.array(us, dtype=float), 4))
            ctx.check(all(map(same, before, [snapshot(s) for s in order])), "drawing changes a state", states=n)
            ctx.trace()
            plt.close(fig)
    for n in (1, 2, 3):
        membrane.plot_in_columns(states[:n], title="t", finish=False, in3d=True, field="velocity", vmin=-3, vmax=6, zmin=-3, zmax=6)
        surface(ctx, plt.gcf(), nodes, elements, states[:n])
        ctx.trace()
    membrane.plot(states[1], in3d=True, vmin=-3, vmax=6, zmin=-3, zmax=6)
    surface(ctx, plt.gcf(), nodes, elements, states[1:2])
    ctx.trace()


def surface(ctx, fig, nodes, elements, states):
    import matplotlib.pyplot as plt

    from mc.checks.c18 import interpolate

    shown = [ax for ax in fig.axes if ax.name == "3d"]
    ctx.check(len(shown) == len(states), "number of surfaces", got=len(shown), want=len(states))
    for ax, s in zip(shown, states):
        lines = [np.array(line.get_data_3d(), dtype=float) for line in ax.lines]
        ctx.check(len(lines) == 1, "number of boundary curves", got=len(lines))
        x, y, z = lines[0]
        want = [interpolate(nodes, elements, s.displacement[:, 0], p) for p in zip(x, y)]
        ctx.close(z, want, "height of the boundary of the surface", 1e-6)
        ctx.check(len(ax.collections) == 1, "number of surfaces in one picture", got=len(ax.collections))
        ctx.step()
        ctx.state(("surface", len(states), s.time))
    plt.close(fig)


def files(job, ctx):
    """Every sequence of saves into one directory."""
    import matplotlib.pyplot as plt

    from conmech.helpers.config import Config
    from conmech.plotting.drawer import Drawer

    body = body_of("square2", "bottom/top")
    states = [state_of(body, "bent", 0.0), state_of(body, "far", 0.5)]
    saves = [("one", "svg", 0), ("two", "svg", 1), ("one", "png", 1), (True, "svg", 0)]
    for tail in itertools.product(range(4), repeat=job["depth"] - 1):
        for output_dir in ("given", None):
            root = tempfile.mkdtemp(prefix="c27_")
            try:
                conf = Config(show=False, save=True, outputs_path=os.path.join(root, "out"), output_dir=output_dir).init()
                where = os.path.join(root, "out", output_dir or str(conf.timestamp))
                present = {}
                for k in (job["first"],) + tail:
                    name, fmt, i = saves[k]
                    before = listing(root)
                    Drawer(state=states[i], config=conf).draw(show=False, save=name, save_format=fmt)
                    after = listing(root)
                    changed = sorted(p for p in after if after[p] != before.get(p))
                    gone = sorted(p for p in before if p not in after)
                    ctx.check(not gone, "saving a picture removes files", gone=gone)
                    if name is True:
                        ok = len(changed) == 1 and changed[0] not in before and os.path.dirname(changed[0]) == where
                        ctx.check(ok and changed[0].endswith("." + fmt), "file of an unnamed picture", changed=changed)
                    else:
                        path = os.path.join(where, f"{name}.{fmt}")
                        same_picture = present.get(path) == i
                        ctx.check(changed == [path] or (same_picture and not changed and path in before), "file of a picture", changed=changed, want=path)
                        present[path] = i
                    for p in changed:
                        with open(p, "rb") as f:
                            head = f.read(200)
                        good = head.startswith(b"\x89PNG") if fmt == "png" else b"<?xml" in head or b"<svg" in head
                        ctx.check(good, "format of the picture", format=fmt, head=repr(head[:20]))
                    ctx.check(not plt.get_fignums(), "a saved picture stays open")
                    ctx.step()
                    ctx.state((output_dir, sorted(present), k))
                ctx.trace()
                ctx.outcome((output_dir is None, len(present), len(listing(root))))
            finally:
                plt.close("all")
                shutil.rmtree(root)


def listing(root):
    out = {}
    for d, _, names in os.walk(root):
        for n in names:
            p = os.path.join(d, n)
            st = os.stat(p)
            out[p] = (st.st_size, st.st_mtime_ns, st.st_ino)
    return out


def config(job, ctx):
    from conmech.helpers.config import Config

    for show, save, given, nested in itertools.product((False, True), (False, True), (None, "results", os.path.join("a", "b")), (False, True)):
        root = tempfile.mkdtemp(prefix="c27_")
        try:
            base = os.path.join(root, "x", "y") if nested else root
            conf = Config(show=show, save=save, outputs_path=base, output_dir=given)
            where = os.path.join(base, given or str(conf.timestamp))
            ctx.check(str(conf.path) == where, "directory of the outputs", got=str(conf.path), want=where)
            for again in range(2):
                try:
                    got = conf.init()
                    ok = got is conf
                    refused = False
                except ValueError:
                    ok, refused = True, True
                ctx.check(ok, "init() returns another object")
                ctx.check(refused == (show and save), "which configurations are refused", show=show, save=save, refused=refused)
                ctx.check(os.path.isdir(where) == (not refused), "the directory of the outputs", exists=os.path.isdir(where), show=show, save=save)
                if not refused and not again:
                    with open(os.path.join(where, "kept"), "w") as f:
                        f.write("kept")
                if not refused:
                    ctx.check(os.listdir(where) == ["kept"], "init() changes what was there", got=os.listdir(where))
                ctx.step()
            ctx.trace()
            ctx.state((show, save, given, nested))
            ctx.outcome((refused, given is None))
        finally:
            shutil.rmtree(root)
