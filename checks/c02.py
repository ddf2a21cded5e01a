"""C02: continuity of paths and the bookkeeping of every row, over scenes, sources and per-ray metadata."""
import itertools
import numpy as np
import pyrayt
import pyrayt.components as pc
import tinygfx.g3d as cg
from mc import trace, scene, core
from mc.scene import leaf
from checks import scenes

LEVEL = "model_checking"
RULE = ("state = scene x source list; all emitted rays differ in wavelength, intensity and starting index, and the scenes "
        "contain bodies of every material kind plus scripted materials that change intensity, wavelength, index or "
        "direction; all rows are checked for continuity and against the row predicted by the reference; non-trivial = a row")
ASSUMPTIONS = ["rays whose next surface or interaction is ambiguous (tangent, edge, tie, critical angle) are only checked "
               "for the row invariants from there on"]
EFFECTS = ["dim0.5", "dim0.004", "wave0.7", "wave0.4", "index1.5", "bend20", "n1.5", "BK7", "SF5", "mirror", "absorb"]


def varied(o, d):
    n = len(o)
    k = np.arange(n)
    return trace.Fixed(o, d, wavelength=np.array([0.38, 0.45, 0.58930123, 0.633, 0.7491877364, 1.2, 0.404656555, 0.9])[k % 8],
                       intensity=np.array([100, 37.5, 1, 0.1, 0.25, 0.05, 4000])[k % 7],
                       index=np.array([1, 1, 1.5, 1, 1.33])[k % 5])


def layers(names):
    """sheets and blocks one after the other"""
    out = []
    for i, m in enumerate(names):
        if i % 2:
            out.append(scene.build(leaf("cuboid", [[-0.2, -2, -2], [0.2, 2, 2]], [["rz", 8], ["move", 1.5 * i, 0, 0]], m)))
        else:
            out.append(scene.build(leaf("plane", [4, 4], [["ry", 90], ["move", 1.5 * i, 0, 0]], m)))
    return out


def sources(kind):
    if kind == "line":
        return [pc.LineOfRays(1.1, wavelength=0.45).move_x(-3)]
    if kind == "two":
        return [pc.LineOfRays(0.7, wavelength=0.4).move(-3, 0.1, 0.2), pc.ConeOfRays(9, wavelength=0.6).move_x(-4)]
    if kind == "tuple":
        return (pc.WedgeOfRays(25, wavelength=0.7).move_x(-3.3), pc.CircleOfRays(0.9).move(-2, 0.1, 0),
                pc.LineOfRays(0.4, wavelength=0.5).rotate_z(180).move(6, 0.2, 0.1))
    return pc.ConeOfRays(14, wavelength=0.52).move_x(-5)


def check(ctx, src, nodes, n, limit, offset=None):
    tr = pyrayt.RayTracer(src, [x.real for x in nodes], rays_per_source=n, generation_limit=limit)
    em = trace.emit(src, n)
    if offset is None:
        df = tr.trace()
        trace.invariants(ctx, df, em.shape[1])
        trace.conform(ctx, df, em, nodes, limit)
    else:
        tr.ray_offset_value = offset
        df = tr.trace()
        trace.invariants(ctx, df, em.shape[1], offset=offset)
        trace.conform(ctx, df, em, nodes, limit, offset=offset)


def run(ctx):
    o, d = scenes.lattice(ctx.thorough)
    src = varied(o, d)
    for label, items in scenes.families(ctx.thorough):
        # most of the geometry is C01's business
        if label[0] == "2" and not ctx.thorough and (label.count("glass") + label.count("lens") < 1):
            continue
        if ctx.selected({"scene": label}):
            with ctx.case({"scene": label}):
                check(ctx, src, scenes.build_scene(items), len(src), 6)
    # scripted layers
    o2 = np.array([(-3, y, z) for y in np.linspace(-1, 1, 7) for z in (-0.4, 0.05, 0.6)])
    d2 = np.array([(1, 0.1 * a, 0.05 * b) for a in (-1, 0, 1) for b in (-1, 0, 1)])
    oo, dd = np.repeat(o2, len(d2), axis=0), np.tile(d2, (len(o2), 1))
    src2 = varied(oo, dd)
    depth = 4 if ctx.thorough else 3
    for names in itertools.product(EFFECTS, repeat=depth):
        if depth == 4 and len(set(names)) < 3:
            continue
        if ctx.selected({"layers": names}):
            with ctx.case({"layers": names}, steps=depth):
                check(ctx, src2, layers(names), len(src2), 9)
    # real sources in lists, tuples and alone, and every small ray count
    for kind, n, names, limit in itertools.product(("one", "line", "two", "tuple"), (1, 2, 3, 8),
                                                   [("n1.5", "BK7", "mirror"), ("wave0.7", "SF5", "absorb"),
                                                    ("dim0.5", "mirror", "n1.5")], (1, 2, 3, 20)):
        data = {"sources": kind, "n": n, "layers": names, "limit": limit}
        if ctx.selected(data):
            with ctx.case(data, steps=limit):
                check(ctx, sources(kind), layers(names), n, limit)
    # a tracer with another surface offset
    for offset, names in itertools.product((1e-7, 2.5e-6, 1e-5, 1e-4, 1e-3), [("n1.5", "BK7", "mirror"), ("mirror", "n1.5", "dim0.5"), ("SF5", "wave0.7", "absorb")]):
        data = {"offset": offset, "layers": names}
        if ctx.selected(data):
            with ctx.case(data, steps=3):
                check(ctx, src2, layers(names), len(src2), 8, offset)
                check(ctx, sources("two"), layers(names), 3, 8, offset)
                check(ctx, sources("one"), layers(names), 5, 8)
    # long paths: a hall of mirrors, up to several hundred generations
    for limit, tilt, n in itertools.product((31, 32, 33, 50, 64, 65, 100, 127, 128, 129, 255, 257) + ((600, 1100) if ctx.thorough else ()),
                                            (0, 3), (1, 4)):
        data = {"hall of mirrors": limit, "tilt": tilt, "n": n}
        if ctx.selected(data):
            with ctx.case(data, steps=limit):
                hall(ctx, limit, tilt, n)


def hall(ctx, limit, tilt, n):
    mirrors = [cg.XYPlane(400, 400, material=pyrayt.materials.mirror).rotate_y(90).move_x(x) for x in (-1, 1)]
    src = pc.LineOfRays(1, wavelength=0.5).rotate_z(tilt)
    df = pyrayt.RayTracer(src, mirrors, rays_per_source=n, generation_limit=limit).trace()
    trace.invariants(ctx, df, n)
    if not ctx.expect(len(df) == n * limit, "not one row per ray and generation", n=len(df), want=n * limit):
        return
    em = trace.emit(src, n)
    gen, ids = df["generation"].to_numpy(dtype=float), df["id"].to_numpy(dtype=float)
    ok = sorted(zip(gen, ids)) == [(g, i) for g in range(limit) for i in range(n)]
    if not ctx.expect(ok, "not one row per ray and generation", n=limit):
        return
    g, i = gen.astype(int), ids.astype(int)
    o, d = em[:3, i], em[4:7, i]
    # the segment of generation g ends on the wall at +-1 after the unfolded way to 2 g + 1
    wall = np.where(g % 2 == 0, 1.0, -1.0)
    way = ((2 * g + 1) - o[0]) / d[0]
    tol = 1e-5 * (2 + g)
    ctx.nontrivial += len(df)
    for c, want in (("x1", wall), ("y1", o[1] + way * d[1]), ("z1", o[2] + way * d[2]), ("x_tilt", wall * d[0]), ("y_tilt", d[1]),
                    ("z_tilt", d[2])):
        off = np.abs(df[c].to_numpy(dtype=float) - want)
        ctx.expect(bool(np.all(off <= tol)), "a ray of a hall of mirrors leaves its path", column=c, n=limit, worst=float(off.max()))
