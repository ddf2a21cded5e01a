"""C38: the choice of coordinates.  Whole worlds are turned, moved, enlarged and mirrored, and have to work alike."""
import itertools
import numpy as np
import pyrayt
import pyrayt.components as pc
import tinygfx.g3d as cg
from pyrayt import materials as matl
from mc import core, lens, oracle, paint, scene, trace
from mc.oracle import LD
from checks import c26, c35, scenes

LEVEL = "model_checking"
TECHNIQUE = "bounded exhaustive exploration of the implementation against a reference model"
RULE = ("state = system of components x light (ray lattice or sources) x world transform (turns, moves, enlargements, mirror images, and "
        "sequences of them) or symmetry of a component, or lengths given in another unit; the trace is carried back and compared, "
        "row by row, with that of the untransformed world, and so are the pictures of a camera that moves along; "
        "non-trivial = a row or pixel compared")
ASSUMPTIONS = ["rays that run (by the reference) within 3e-4 of an edge, a tie, grazing incidence or the critical angle are left out",
               "the small offset at which traced rays start is a fixed length"]
COLS = trace.COLS
LIMIT = 6

# world transforms: one operation after the other, on everything
TURNS = {"rx90": [["rx", 90]], "ry90": [["ry", 90]], "rz90": [["rz", 90]], "rz180": [["rz", 180]], "ry-90 rx180": [["ry", -90], ["rx", 180]],
         "cyclic": [["rx", 90], ["ry", 90]], "askew": [["rz", 37], ["ry", -61], ["rx", 15]], "full": [["rz", 120], ["rz", 120], ["rz", 120]],
         "tiny": [["ry", 1e-3]], "steep": [["ry", 45], ["rz", 89.99]]}
MOVES = {"near": [["move", 0.1, -0.2, 0.3]], "far": [["move", 1000, -2000, 500]], "very far": [["move", 0, 3e4, 0]], "axis": [["move", -5, 0, 0]],
         "there and back": [["move", 7, 1, 2], ["rx", 20], ["rx", -20], ["move", -7, -1, -2]]}
SIZES = {"x10": [["scale", 10, 10, 10]], "x0.1": [["scale", 0.1, 0.1, 0.1]], "x200": [["scale", 200, 200, 200]], "x0.02": [["scale", 0.02, 0.02, 0.02]],
         "stretch and back": [["scale", 2, 5, 0.5], ["scale", 0.5, 0.2, 2]]}
MIXED = {"mixed": [["move", 3, 1, -2], ["rz", 50], ["scale", 4, 4, 4], ["move", 100, 0, 0], ["ry", -110]],
         "matrix": [["tf", [[0, -1, 0, 4], [0, 0, 1, -3], [-1, 0, 0, 2], [0, 0, 0, 1]]]]}
WORLDS = {**TURNS, **MOVES, **SIZES, **MIXED}
MIRRORS = {"x": (-1, 1, 1), "y": (1, -1, 1), "z": (1, 1, -1)}


def mirrored(spec, m):
    """the mirror image of a scene description"""
    def op(o):
        o = list(o)
        if o[0] == "move":
            return ["move"] + [a * b for a, b in zip(o[1:], m)]
        if o[0] in ("rx", "ry", "rz"):
            return [o[0], o[1] * np.prod(m) * m["xyz".index(o[0][1])]]
        return o
    ops = [op(o) for o in spec.get("ops", [])]
    if "op" in spec:
        return dict(spec, l=mirrored(spec["l"], m), r=mirrored(spec["r"], m), ops=ops)
    p = spec["p"]
    if spec["k"] == "cuboid":
        a, b = np.array(p[0]) * m, np.array(p[1]) * m
        p = [np.minimum(a, b).tolist(), np.maximum(a, b).tolist()]
    elif spec["k"] == "cylinder" and m[2] < 0:
        p = [p[0], -p[2], -p[1]]
    elif spec["k"] in ("paraboloid", "plane") and m[2] < 0:
        ops = [["rx", 180]] + ops
    return dict(spec, p=p, ops=ops)


def bodies(reals):
    return [i for r in reals for i, _ in r.surface_ids]


def table(df, reals):
    a = df[list(COLS)].to_numpy(dtype=float)
    ids = bodies(reals)
    k = COLS.index("surface")
    a[:, k] = [ids.index(int(v)) if int(v) in ids else -2 for v in a[:, k]]
    key = list(zip(a[:, COLS.index("id")].astype(int), a[:, 0].astype(int)))
    return dict(zip(key, a))


PLAIN = [COLS.index(c) for c in ("intensity", "wavelength", "index")]
START, END, TILT = ([COLS.index(c) for c in cs] for cs in (("x0", "y0", "z0"), ("x1", "y1", "z1"), ("x_tilt", "y_tilt", "z_tilt")))
SURF = COLS.index("surface")


def compare(ctx, base, got, fair, slack, back, what, size=1.0, surfaces=True, coarse=1.0):
    """back: 4x4 that carries the transformed world into the base one"""
    rays = sorted({i for i, _ in base} | {i for i, _ in got})
    lin = back[:3, :3].astype(float)
    rot = lin / np.cbrt(abs(np.linalg.det(lin)))
    grow = np.cbrt(abs(np.linalg.det(lin)))
    for i in rays:
        if not fair[i]:
            ctx.ambiguous += 1
            continue
        for g in range(LIMIT + 1):
            p, q = base.get((i, g)), got.get((i, g))
            if p is None and q is None:
                break
            ctx.evaluations += 1
            if p is None or q is None:
                ctx.fail(f"{what}: a ray {'ends early' if q is None else 'goes on'}", ray=i, generation=g, row=(p if q is None else q).tolist())
                return False
            ctx.nontrivial += 1
            tol = 1e-9 * coarse * slack[i] * 20 ** g * (size + np.abs(p[END]).max())
            off = 3e-6 * max(1, grow)
            a, b = (lin @ q[c] + back[:3, 3].astype(float) for c in (START, END))
            bad = (np.abs(p[PLAIN] - q[PLAIN]) > 1e-9 * np.abs(p[PLAIN])).any()
            bad |= np.abs(a - p[START]).max() > tol + off or np.abs(b - p[END]).max() > tol or np.abs(rot @ q[TILT] - p[TILT]).max() > tol
            if bad or (surfaces and p[SURF] != q[SURF]):
                ctx.fail(f"{what}: a ray takes another path", ray=i, generation=g, want=dict(zip(COLS, p)), got_back=[a, b, rot @ q[TILT]],
                         got=dict(zip(COLS, q)), tolerance=tol)
                return False
    return True


def run_trace(sources, reals, n):
    return table(pyrayt.RayTracer(sources, reals, rays_per_source=n, generation_limit=LIMIT).trace(), reals)


def light(o, d):
    k = np.arange(len(o))
    return trace.Fixed(o, d, wavelength=np.array(c35.WL)[k % len(c35.WL)], intensity=np.array([100, 2.5, 0.4])[k % 3])


def lit(o, d, m):
    """the same light elsewhere"""
    oo = (oracle.mm(m, np.vstack((o.T, np.ones(len(o)))).astype(LD))[:3]).T.astype(float)
    dd = (m[:3, :3] @ d.T.astype(LD)).T.astype(float)
    return light(oo, dd)


def world_case(ctx, make, o, d, ops, what):
    nodes = make()
    src = light(o, d)
    fair, slack = trace.predict(trace.emit(src, len(src)), nodes, LIMIT, 3e-4)
    base = run_trace(src, [n.real for n in nodes], len(src))
    pose = oracle.Pose(ops)
    moved = make()
    for n in moved:
        for op in ops:
            oracle.apply_op(n.real, op)
    got = run_trace(lit(o, d, pose.m), [n.real for n in moved], len(src))
    compare(ctx, base, got, fair, slack, pose.i, what, coarse=30 if any(op[0] in ("scale", "move") for op in ops) else 1)
    ctx.count(what)


def mirror_case(ctx, items, o, d, m, what):
    nodes = scenes.build_scene(items)
    src = light(o, d)
    fair, slack = trace.predict(trace.emit(src, len(src)), nodes, LIMIT, 3e-4)
    base = run_trace(src, [n.real for n in nodes], len(src))
    image = [scene.build(mirrored(scenes.placed(*i), m)) for i in items]
    back = np.diag([*m, 1]).astype(LD)
    got = run_trace(light(o * m, d * m), [n.real for n in image], len(src))
    compare(ctx, base, got, fair, slack, back, what, coarse=10)
    ctx.count(what)


# -- real sources that move along -----------------------------------------------------------------------------
def lamps():
    return [pc.LineOfRays(0.9, wavelength=0.45).rotate_x(30).move(-4, 0.1, 0.07), pc.ConeOfRays(9, wavelength=0.6).move(-4.2, -0.1, 0.12),
            pc.CircleOfRays(1.1, wavelength=0.55).rotate_y(3).move_x(-4.4), pc.WedgeOfRays(12, wavelength=0.7).rotate_z(4).move(-4.1, -0.03, 0.02),
            pc.StaticLamp(0.8, 0.7, 8, wavelength=0.5).move(-4.3, 0.02, -0.05), pc.Lamp(0.6, 0.6, 9, wavelength=0.65).move(-4.5, 0.2, 0)]


def source_case(ctx, name, ops, what, grouped):
    nodes = c35.bench(name)
    n = 7
    np.random.seed(5)
    src = lamps()
    emitted = trace.emit(src, n)
    fair, slack = trace.predict(emitted, nodes, LIMIT, 3e-4)
    np.random.seed(5)
    base = run_trace(lamps(), [x.real for x in nodes], n)
    moved, src = c35.bench(name), lamps()
    pose = oracle.Pose(ops)
    if grouped:
        world = cg.ObjectGroup([x.real for x in moved] + src)
        for op in ops:
            oracle.apply_op(world, op)
    else:
        for op in ops:
            for x in [y.real for y in moved] + src:
                oracle.apply_op(x, op)
    np.random.seed(5)
    got = run_trace(src, [x.real for x in moved], n)
    compare(ctx, base, got, fair, slack, pose.i, what, coarse=30)
    ctx.count(what)


# -- components given in another unit of length, and their symmetries -----------------------------------------
G = matl.glass
KINDS = {
    "biconvex": (lambda s: pc.biconvex_lens(3 * s, 4 * s, 0.5 * s, aperture=1.6 * s, material=G["BK7"]), lambda: lens.lens(3, -4, 0.5, 1.6, "BK7")),
    "flat": (lambda s: pc.plano_convex_lens(2.5 * s, 0.6 * s, aperture=1.8 * s, material=G["SF5"]), lambda: lens.lens(2.5, np.inf, 0.6, 1.8, "SF5")),
    "meniscus": (lambda s: pc.thick_lens(3 * s, 5 * s, 0.4 * s, aperture=(1.5 * s, 2 * s), material=G["BK7"]), lambda: lens.lens(3, 5, 0.4, (1.5, 2), "BK7")),
    "biconcave": (lambda s: pc.thick_lens(-2 * s, 3 * s, 0.3 * s, aperture=1.6 * s, material=G["SF2"]), lambda: lens.lens(-2, 3, 0.3, 1.6, "SF2")),
    "prism": (lambda s: pc.equilateral_prism(1.5 * s, 1.2 * s, material=G["SF5"]), lambda: lens.prism(1.5, 1.2, "SF5")),
    "parabolic": (lambda s: pc.parabolic_mirror(2 * s, 0.2 * s, aperture=1.6 * s), lambda: lens.parabolic(2, 0.2, 1.6, (0, 0), "mirror")),
    "off-axis": (lambda s: pc.parabolic_mirror(2 * s, 0.2 * s, aperture=1.4 * s, off_axis=(1 * s, 0.2 * s)),
                 lambda: lens.parabolic(2, 0.2, 1.4, (1, 0.2), "mirror")),
    "spherical": (lambda s: pc.spherical_mirror(-5 * s, 0.1 * s, aperture=1.6 * s), lambda: lens.spherical(-5, 0.1, 1.6, (0, 0), "mirror")),
    "hollow": (lambda s: pc.spherical_mirror(4 * s, 0.3 * s, aperture=(1.6 * s, 1 * s)), lambda: lens.spherical(4, 0.3, (1.6, 1), (0, 0), "mirror")),
    "plane": (lambda s: pc.plane_mirror(0.1 * s, aperture=(2 * s, 1 * s)), lambda: lens.plane(0.1, (2, 1), (0, 0), "mirror")),
    "baffle": (lambda s: pc.baffle((1.5 * s, 1.1 * s)), lambda: lens.sheet((1.5, 1.1))),
}
ROUND = ("biconvex", "flat", "biconcave", "parabolic", "spherical")
EVEN = ("meniscus", "hollow", "plane", "baffle")


# half height and half width, whether round
RIMS = {"biconvex": (0.8, 0.8), "flat": (0.9, 0.9), "meniscus": (0.75, 1), "biconcave": (0.8, 0.8), "prism": (0.75, 0.6), "parabolic": (0.8, 0.8),
        "off-axis": (0.7, 0.7), "spherical": (0.8, 0.8), "hollow": (0.8, 0.5), "plane": (1, 0.5), "baffle": (0.75, 0.55)}


def rim_light(h, w):
    """rays that pass the rim of a component within a hair, inside and outside"""
    rays = []
    for e in (-1e-3, 1e-3):
        for s in (-1, 1):
            for x, v in ((-3, 1), (3, -1)):
                rays += [((x, s * (h + e), 1e-3), (v, 0, 0)), ((x, 1e-3, s * (w + e)), (v, 0, 0)),
                         ((x, 0.3 * h, s * (w + e)), (v, 0, 0)), ((x, s * (h + e) + 0.3, 0.07), (v, -0.1 * s if s > 0 else 0.1, 0))]
    return tuple(np.array(a, dtype=float) for a in zip(*rays))


def light_on(dense):
    """rays on a component of size about 1 at the origin, from both sides; none along the axis, where faces touch"""
    at = [(x, y, z) for x in (-0.05, 0.3) for y in (-0.71, -0.26, 0.23, 0.66) for z in (-0.58, -0.12, 0.31, 0.82)]
    eye = [(-5, 0.3, 0.2), (-4, -1.1, 0.7), (6, 0.4, -0.9), (0.3, 4, 0.9), (0.2, 0.7, -5)] + ([(-1, 2, 2), (3, -3, 1), (-30, 1, 2)] if dense else [])
    o, d = zip(*[(e, np.subtract(p, e)) for e in eye for p in at])
    par = [(-4, y, z) for y in (-0.6, -0.2, 0.33, 0.7) for z in (-0.5, 0.17, 0.61)]
    return np.array(o + tuple(par), dtype=float), np.array(d + ((1, 0, 0),) * len(par), dtype=float)


def alike(ctx, first, second, tree, o, d, m, what, surfaces=True, coarse=10):
    """two components that are images of each other under m"""
    node = [scene.Node(first, tree)]
    src = light(o, d)
    fair, slack = trace.predict(trace.emit(src, len(src)), node, LIMIT, 3e-4)
    base = run_trace(src, [first], len(src))
    got = run_trace(lit(o, d, m), [second], len(src))
    compare(ctx, base, got, fair, slack, oracle.inverse(m), what, surfaces=surfaces, coarse=coarse)
    ctx.count(what)


def picture_case(ctx, items, cam, k, ops):
    lights = c26.LIGHTS[k % len(c26.LIGHTS)]
    size = (17, 5.3, 0.8)
    base = c26.Studio(items, cam, k, size, False)
    pic = base.picture()
    want, known = pic.shaded(base.lights, base.look)
    edge, sure = pic.edges()
    pose = oracle.Pose(ops)
    first, first_edges = base.shader.render(), base.edger.render()
    moved = c26.Studio(items, cam, k, size, False)
    for op in ops:
        for n in moved.nodes:
            oracle.apply_op(n.real, op)
        oracle.apply_op(moved.cam, op)
    at = [(oracle.mm(pose.m, np.array([[*l, 1]], dtype=LD).T)[:3, 0]).astype(float) for l in lights]
    shapes = [n.real for n in moved.nodes]
    got = cg.renderers.ShadedRenderer(moved.cam, shapes, c26.as_argument([tuple(a) for a in at], k)).render()
    lines = cg.renderers.EdgeRender(moved.cam, shapes).render()
    ctx.evaluations += 2 * known.size
    ctx.nontrivial += int(((pic.label.reshape(pic.shape) >= 0) & known).sum())
    ctx.ambiguous += int((~known).sum())
    bad = known & (np.abs(np.asarray(got) - np.asarray(first)).max(axis=2) > 1e-5)
    ctx.expect(not bad.any(), "a picture taken after everything has moved is not the same", pixels=np.argwhere(bad)[:3].tolist())
    bad = sure & (np.asarray(lines) != np.asarray(first_edges)).any(axis=2)
    ctx.expect(not bad.any(), "the edges of a picture taken after everything has moved are not the same", pixels=np.argwhere(bad)[:3].tolist())
    ctx.count("pictures")


def run(ctx):
    t = ctx.thorough
    o, d = scenes.lattice(False)
    off = np.abs(o[:, 1:]).max(1) + np.abs(d[:, 1:]).max(1) > 1e-3
    ob, db = o[off], d[off]
    for name, w in itertools.product(c35.BENCHES, WORLDS):
        data = {"bench": name, "world": w}
        if ctx.selected(data):
            with ctx.case(data, steps=2 * LIMIT):
                world_case(ctx, lambda: c35.bench(name), ob, db, WORLDS[w], "a bench")
    for j, (name, w) in enumerate(itertools.product(c35.BENCHES, WORLDS)):
        for grouped in (False, True):
            if not t and (j + grouped) % 2:
                continue
            data = {"sources on": name, "world": w, "grouped": grouped}
            if ctx.selected(data):
                with ctx.case(data, steps=2 * LIMIT):
                    source_case(ctx, name, WORLDS[w], "sources that move along", grouped)
    for k, (label, items) in enumerate(scenes.families(t)):
        for j, w in enumerate(WORLDS):
            if (label[0] != "1" or not label.endswith("centre")) and (j + k) % (11 if not t else 5):
                continue
            data = {"scene": label, "world": w}
            if ctx.selected(data):
                with ctx.case(data, steps=2 * LIMIT):
                    world_case(ctx, lambda: scenes.build_scene(items), o, d, WORLDS[w], "a scene")
        for j, m in enumerate(MIRRORS):
            if label[0] != "1" and (j + k) % 3 and not t:
                continue
            data = {"scene": label, "mirror": m}
            if ctx.selected(data):
                with ctx.case(data, steps=2 * LIMIT):
                    mirror_case(ctx, items, o, d, np.array(MIRRORS[m]), "a mirror image")
    # lengths in another unit
    oc, dc = light_on(t)
    for kind, s in itertools.product(KINDS, (1000, 25.4, 10, 0.1, 0.03) + ((1e4, 3, 0.5, 0.01) if t else ())):
        data = {"kind": kind, "unit": s}
        if ctx.selected(data):
            with ctx.case(data, steps=2 * LIMIT):
                make, tree = KINDS[kind]
                alike(ctx, make(1), make(s), tree(), oc, dc, np.diag([s, s, s, 1]).astype(LD), "lengths in another unit", coarse=100)
                alike(ctx, make(1), make(s).scale_all(1 / s), tree(), oc, dc, np.eye(4, dtype=LD), "made large and scaled down", coarse=100)
    # far away: a hair inside and outside the rim
    for kind, at in itertools.product(KINDS, [(x, y, z) for x in (0, 31234.567) for y in (0, -23456.789) for z in (0, 12345.678)][1:] + [(4e5, 1, 0), (0, 4e5 / 3, 0)]):
        data = {"kind": kind, "far": at}
        if ctx.selected(data):
            with ctx.case(data, steps=2 * LIMIT):
                make, tree = KINDS[kind]
                ro, rd = rim_light(*RIMS[kind])
                pose = oracle.Pose([["move", *at]])
                first = make(1)
                alike(ctx, first, make(1).move(*at), tree(), ro, rd, pose.m, "near the rim, far away", coarse=1000)
    # symmetries
    for kind, angle in itertools.product(KINDS, (180, 90, 45, 17, 200)):
        if kind not in ROUND and not (kind in EVEN and angle == 180):
            continue
        data = {"kind": kind, "turned about its axis": angle}
        if ctx.selected(data):
            with ctx.case(data, steps=2 * LIMIT):
                make, tree = KINDS[kind]
                alike(ctx, make(1), make(1).rotate_x(angle), tree(), oc, dc, np.eye(4, dtype=LD), "turned about its axis", surfaces=kind in ROUND)
    radii = (2.0, -2.0, 5.0, -5.0, np.inf)
    for r1, r2, th in itertools.product(radii, radii, (0.7, 1.1)):
        # the two faces do not meet within the aperture
        for a in (0.9, (0.8, 1.0)):
            data = {"lens": [r1, r2, th], "aperture": a}
            if ctx.selected(data):
                with ctx.case(data, steps=2 * LIMIT):
                    make = lambda x, y: pc.thick_lens(x, y, th, aperture=a, material=G["SF5"])
                    alike(ctx, make(r1, r2), make(-r2, -r1).rotate_y(180), lens.lens(r1, r2, th, a, "SF5"), oc * 0.6, dc,
                          np.eye(4, dtype=LD), "a lens turned round", surfaces=False)
    # pictures
    for k, (label, items) in enumerate(scenes.families(False)):
        if label[0] not in "13" and not t:
            continue
        for j, w in enumerate(WORLDS):
            if (j + k) % (9 if not t else 4) or "scale" in str(WORLDS[w]):
                continue
            cam = list(c26.CAMERAS)[(j + k) % len(c26.CAMERAS)]
            data = {"picture": label, "camera": cam, "world": w}
            if ctx.selected(data):
                with ctx.case(data, steps=4):
                    picture_case(ctx, items, cam, k, WORLDS[w])
