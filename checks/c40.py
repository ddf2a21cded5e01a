"""C40: conservation laws.  Systems with a symmetry x rays x poses; what the symmetry conserves is compared row by row."""
import itertools
import numpy as np
import pyrayt
import pyrayt.components as pc
import tinygfx.g3d as cg
from pyrayt import materials as matl
from mc import core, trace, oracle
from mc.oracle import LD

LEVEL = "model_checking"
RULE = ("state = system of one to three (four) elements symmetric about an axis, uniform along a direction or concentric x pose of the "
        "whole system x bundle of skew rays (from outside, from inside of glass, of several wavelengths); in every row index times "
        "moment (or component) of the direction is compared with that at the start of the ray, and intensity and wavelength too; "
        "non-trivial = a row after the first of its ray")
ASSUMPTIONS = ["side walls that are not symmetric belong to absorbers, and the ends of long bodies are never reached"]
INF = float("inf")
BK7, SF5 = matl.glass["BK7"], matl.glass["SF5"]
N2, N08 = matl.BasicRefractor(2.0), matl.BasicRefractor(0.8)
MIRROR = matl.mirror


def axial(shape):
    """a primitive about z, laid along x"""
    return shape.rotate_y(90)


ELEMENTS = {
    "biconvex": lambda: pc.biconvex_lens(3, 4, 0.6, aperture=2.0, material=BK7),
    "meniscus": lambda: pc.thick_lens(2.2, 3.5, 0.4, aperture=2.0, material=SF5),
    "biconcave": lambda: pc.thick_lens(-3.0, 2.5, 0.2, aperture=1.8),
    "plano": lambda: pc.plano_convex_lens(2.5, 0.7, aperture=2.2, material=N2),
    "window": lambda: pc.thick_lens(INF, INF, 0.5, aperture=2.0, material=N08),
    "thick": lambda: pc.thick_lens(1.6, -1.7, 2.0, aperture=2.4, material=BK7),
    "sphere mirror": lambda: pc.spherical_mirror(4, 0.2, aperture=2.0),
    "hollow mirror": lambda: pc.spherical_mirror(5, 0.3, aperture=(1.4, 0.8), off_axis=(0.5, -0.3)).rotate_z(180),
    "domed mirror": lambda: pc.spherical_mirror(-3, 0.3, aperture=(-1.4, -1.8)),
    "parabola": lambda: pc.parabolic_mirror(2, 0.3, aperture=2.0),
    "off-axis parabola": lambda: pc.parabolic_mirror(1.5, 0.2, aperture=(0.9, 1.1), off_axis=(0.8, 0.4)).rotate_z(180),
    "plane mirror": lambda: pc.plane_mirror(0.3, aperture=(1.5, 0.7)),
    "stop": lambda: pc.aperture((4, 4), 1.1),
    "square stop": lambda: pc.aperture((3, 3), (0.9, 0.5)),
    "baffle": lambda: pc.baffle(1.7),
    "ball": lambda: cg.Sphere(0.8, material=N2),
    "egg": lambda: cg.Sphere(0.9, material=BK7).scale(1.7, 0.7, 0.7),
    "mirror egg": lambda: cg.Sphere(0.7, material=MIRROR).scale(0.4, 1.3, 1.3),
    "rod": lambda: axial(cg.Cylinder(0.7, -0.9, 0.8, material=SF5)),
    "pipe": lambda: axial(cg.csg.difference(cg.Cylinder(1.1, -0.8, 0.8, material=MIRROR), cg.Cylinder(0.9, -2, 2, material=MIRROR))),
    "bowl": lambda: axial(cg.Paraboloid(0.6, 1.2, material=N2)),
    "mirror bowl": lambda: axial(cg.Paraboloid(0.5, 1.0, material=MIRROR)).scale(1.5, 1.2, 1.2),
    "sheet": lambda: axial(cg.XYPlane(2.5, 1.8, material=BK7)),
    "half ball": lambda: cg.csg.intersect(cg.Sphere(1.0, material=BK7), axial(cg.Cylinder(1.5, 0, 3, material=BK7))),
    "ring": lambda: cg.csg.difference(axial(cg.Cylinder(1.3, -0.3, 0.3, material=N08)), cg.Sphere(0.7, material=N08)),
    "lens in lens": lambda: cg.csg.union(cg.Sphere(0.8, material=BK7).scale(0.5, 1, 1), axial(cg.Cylinder(0.4, -0.9, 0.9, material=BK7))),
}
CORE = ["biconvex", "meniscus", "off-axis parabola", "hollow mirror", "egg", "pipe", "square stop", "bowl", "ring"]
POSES = [[], [["rz", 40], ["ry", -25], ["move", 3, -2, 1]], [["scale", 2.5, 2.5, 2.5], ["rx", 33], ["rz", 110], ["move", -40, 15, 8]],
         [["ry", 90]], [["tf", [[1, 0, 0, 0], [0, -1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1]]], ["rz", 180], ["move", 0.3, 0, 1e3]], [["scale", 1e-2, 1e-2, 1e-2], ["rx", -70], ["ry", 10]]]


def long_bodies():
    """uniform along y, over thousands of units"""
    rod = lambda r, m: cg.Cylinder(r, -3e3, 3e3, material=m).rotate_x(90)
    return {
        "prism": lambda: pc.equilateral_prism(1.5, 5e3, material=BK7),
        "small prism": lambda: pc.equilateral_prism(0.7, 4e3, material=SF5).rotate_y(35).move(0.1, 0, 0.2),
        "bar": lambda: cg.Cuboid((-0.4, -3e3, -0.6), (0.5, 3e3, 0.5), material=N2).rotate_y(20),
        "mirror bar": lambda: cg.Cuboid((-0.3, -3e3, -0.2), (0.2, 3e3, 0.9), material=MIRROR).rotate_y(-35),
        "fibre": lambda: rod(0.7, BK7),
        "flat fibre": lambda: rod(0.6, N08).scale(0.6, 1, 1.4).rotate_y(15),
        "cylinder lens": lambda: cg.csg.intersect(rod(1.5, SF5).move_x(1.2), rod(1.6, SF5).move_x(-1.2)),
        "gutter": lambda: cg.csg.difference(cg.Cuboid((-0.5, -3e3, -0.8), (0.7, 3e3, 0.8), material=MIRROR), rod(0.9, MIRROR).move_x(-0.9)),
        "tube": lambda: cg.csg.difference(rod(0.9, BK7), rod(0.6, BK7).move_x(0.15)),
        "wall": lambda: cg.XYPlane(2.0, 6e3, material=MIRROR).rotate_y(75),
        "pane": lambda: cg.XYPlane(2.5, 6e3, material=N2).rotate_y(100),
        "two fibres": lambda: cg.csg.union(rod(0.4, N2).move_z(0.5), rod(0.45, N2).move_z(-0.4)),
    }


def shells():
    """concentric"""
    ball = lambda r, m: cg.Sphere(r, material=m)
    return {
        "ball": lambda: ball(1.0, BK7), "big ball": lambda: ball(1.8, N08), "mirror": lambda: ball(0.6, MIRROR), "bead": lambda: ball(0.4, N2),
        "bubble": lambda: cg.csg.difference(ball(1.5, SF5), ball(1.2, SF5)), "room": lambda: cg.csg.difference(ball(2.6, MIRROR), ball(2.5, MIRROR)),
        "turned": lambda: ball(1.3, N2).rotate_x(20).rotate_z(70), "inside out": lambda: cg.csg.union(ball(0.8, BK7), ball(0.3, BK7)),
    }


def system(spaced, makers, names, gap, pose):
    parts = []
    for k, n in enumerate(names):
        p = makers[n]()
        if spaced:
            p.move_x(gap * k)
        for op in pose:
            oracle.apply_op(p, op)
        parts.append(p)
    return parts


def bundle(span, dense):
    """skew rays: towards points around the axis from both sides, from the middle, and along the axis beside it"""
    aims = np.array([(x, y, z) for x in np.linspace(-0.3, span + 0.2, 3 if not dense else 6) for y, z in
                     ((0.31, 0.12), (-0.2, 0.55), (0.7, -0.45), (-0.62, -0.6), (0.05, -0.9))])
    eyes = np.array([(-4, 0.3, -0.5), (span + 5, -0.6, 0.2), (span / 2, 3.5, 1.2), (-2, -1.8, 2.9), (0.12, 0.08, -0.21)])
    o = np.repeat(eyes, len(aims), axis=0)
    d = np.tile(aims, (len(eyes), 1)) - o
    side = aims[:5] * [0, 1, 1] + [-5.0, 0.01, 0.02]
    o, d = np.concatenate((o, side, side + [span + 9, 0, 0])), np.concatenate((d, np.tile([[1.0, 0, 0]], (5, 1)), np.tile([[-1.0, 0, 0]], (5, 1))))
    return o, d / np.linalg.norm(d, axis=1, keepdims=True)


def rigid(pose):
    p = oracle.Pose()
    for op in pose:
        p.apply(op)
    return p


def check(ctx, parts, pose, law, span, dense, limit=14):
    o, d = bundle(span, dense)
    n = len(o)
    p = rigid(pose)
    wo = oracle.mm(p.m, np.vstack((o.T, np.ones(n))).astype(LD))[:3].astype(float).T
    wd = oracle.mm(p.m[:3, :3], d.T.astype(LD)).astype(float).T
    k = np.arange(n)
    src = trace.Fixed(wo, wd, wavelength=np.array([0.42, 0.5893, 0.7])[k % 3], intensity=1.0 + k, index=np.array([1, 1, 1.5, 1, 2.0])[k % 5])
    df = pyrayt.RayTracer(src, parts, rays_per_source=n, generation_limit=limit).trace()
    D = {c: df[c].to_numpy(dtype=float) for c in trace.COLS}
    if not len(df):
        return
    ok = ctx.expect(bool(np.all(np.isfinite(np.stack([D[c] for c in trace.COLS])))), "nan or infinite values in the results")
    if not ok:
        return
    ids = D["id"].astype(int)
    start = oracle.mm(p.i, np.vstack((D["x0"], D["y0"], D["z0"], np.ones(len(df)))).astype(LD))[:3].astype(float)
    tilt = oracle.mm(p.i[:3, :3], np.stack((D["x_tilt"], D["y_tilt"], D["z_tilt"])).astype(LD)).astype(float)
    tilt = tilt / np.linalg.norm(tilt, axis=0)
    first = np.array(trace.emit(src, n))
    got, want = (law(x, y) * i for x, y, i in ((start, tilt, D["index"]), (o.T[:, ids], d.T[:, ids], first[11][ids])))
    # where rays are far from the origin or have been on their way for long, rounding adds up
    scale = float(np.cbrt(abs(np.linalg.det(p.m[:3, :3].astype(float)))))
    reach = np.abs(start).max() + np.abs(p.m[:3, 3].astype(float)).max() / scale
    bad = np.abs(got - want).max(axis=0) > 1e-11 * (1 + reach) * (1 + D["generation"])
    later = D["generation"] > 0
    ctx.evaluations += len(df)
    ctx.nontrivial += int(later.sum())
    for g in (1, 3, 6, 10):
        ctx.count(f"rows of generation {g}", int((D["generation"] == g).sum()))
    if bad.any():
        r = int(np.nonzero(bad)[0][np.argmin(D["generation"][bad])])
        ctx.fail("what the symmetry of the system conserves is not conserved", ray=int(ids[r]), generation=int(D["generation"][r]), n_bad=int(bad.sum()),
                 got=got[:, r], want=want[:, r], row={c: D[c][r] for c in trace.COLS})
        return
    ctx.expect(np.array_equal(D["intensity"], first[9][ids]) and np.array_equal(D["wavelength"], first[10][ids]),
               "intensity or wavelength changed without a material that changes it")


def about_axis(x, d):
    return (x[1] * d[2] - x[2] * d[1])[None, :]


def along_y(x, d):
    return d[1:2]


def about_centre(x, d):
    return np.cross(x.T, d.T).T


def run(ctx):
    t = ctx.thorough
    long, round_ = long_bodies(), shells()
    families = [("axis", ELEMENTS, CORE, about_axis, True), ("uniform", long, list(long)[:7], along_y, True),
                ("concentric", round_, list(round_)[:6], about_centre, False)]
    for name, makers, some, law, spaced in families:
        count = 0
        for depth in (1, 2, 3) + ((4,) if t else ()):
            names = list(makers) if depth < 3 else (some + [n for n in makers if n not in some][:5] if t else some) if depth == 3 else some[:6]
            for seq in itertools.product(names, repeat=depth):
                if not spaced and list(seq) != sorted(set(seq)):
                    continue
                count += 1
                for k, gap in enumerate((2.1, 3.4) if depth > 1 and spaced else (0,)):
                    for q, pose in enumerate(POSES):
                        # one element in every pose; of longer systems each in some
                        if depth > 1 and q != (count + k) % len(POSES) and not (t and depth == 2):
                            continue
                        data = {"symmetry": name, "system": seq, "gap": gap, "pose": q}
                        if ctx.selected(data):
                            with ctx.case(data, steps=14):
                                check(ctx, system(spaced, makers, seq, gap, pose), pose, law, gap * (depth - 1), t)
