"""C19: lens factories.  Radii x thicknesses x apertures x factories; membership of the documented point set."""
import itertools
import numpy as np
import pyrayt.components as pc
from mc import core, lens, oracle, scene, rays as R

LEVEL = "model_checking"
RULE = ("state = lens factory with every combination of radii (both signs, infinite), thickness and aperture (circle, "
        "rectangle, ellipse, wider than the faces allow) from the alphabets, in several poses; hits, normals and materials "
        "along a bundle of lines through all of the lens and past it are compared with the documented point set; "
        "non-trivial = a line that meets the lens")
ASSUMPTIONS = ["concave faces have a radius larger than the distance from the axis to the rim, convex ones larger than the "
               "thickness of the lens (otherwise the documentation does not define the shape)",
               "lines through the vertex of a face that touches the plane of the aperture body are compared by parity only"]

INF = float("inf")
RADII = [1.2, 3.1, 25.0, INF, -1.3, -4.0, -40.0]
THICK = [0.08, 0.5, 1.1]
APERTURES = [1, 0.3, 2.2, (1.0, 0.4), (0.5, 1.5), (0.8, 0.8), (-1.0, -0.4), (-0.5, -1.4), (-0.9, -0.9), (1, 1)]
POSES = [[], [["rz", 35], ["move", 2, -1, 0.5]], [["scale", 1, 1.5, 0.7], ["rx", 50]]]


def documented(r1, r2, t, a):
    """is the shape fixed by the documentation"""
    diag = lens.reach(a)
    if (r1 < 0 and np.isfinite(r1) and -r1 < diag * 1.001) or (r2 > 0 and np.isfinite(r2) and r2 < diag * 1.001):
        return False
    return not any(np.isfinite(r) and abs(r) < t * 1.05 for r in (r1, r2))


def bundle(r1, r2, t, a, dense):
    hy, hz = lens.half(a)
    f1, f2 = lens.faces(r1, r2, t)
    h = np.hypot(hy, hz)
    with np.errstate(invalid="ignore"):
        xs = [v for v in (f1(h), f2(h), -t / 2, t / 2) if np.isfinite(v)]
    x0, x1 = min(xs), max(xs)
    g = [-1.21, -0.9, -0.44, 0.03, 0.38, 0.87, 1.17] if dense else [-1.13, -0.83, -0.31, 0.27, 0.9]
    yz = np.array([(y * hy, z * hz) for y in g for z in g])
    n = len(yz)
    out = []
    # along the axis, both ways, straight and slightly tilted
    for s, tilt in ((1, (0, 0)), (-1, (0, 0)), (1, (0.02, -0.013)), (-1, (1e-7, 1e-6)), (1, (-0.15, 0.11))):
        o = np.column_stack((np.full(n, -s * 5.0 * (1 + t)), yz[:, 0], yz[:, 1]))
        d = np.tile(R.unit((s, *tilt)), (n, 1))
        o[:, 1:] -= tilt * np.full((n, 2), 5.0 * (1 + t))
        out.append(R.bundle(o, d))
    # across: through points between and beyond the faces
    mid = [(x0 + (x1 - x0) * k, y * hy, z * hz) for k in (-0.06, 0.07, 0.31, 0.52, 0.9, 1.05) for y, z in
           ((0.05, 0.03), (0.71, 0.13), (-0.2, 0.77), (-0.63, -0.59), (0.93, 0.94), (1.04, -0.2))]
    eyes = [(0.1, 6.3, 0.2), (-0.15, 0.3, -7.1), (1.9, 3.2, 2.7), (x0 * 0.4 + x1 * 0.6, 0.1 * hy, -0.2 * hz)]
    out.append(R.aim(eyes if dense else eyes[:1] + eyes[2:], mid))
    return R.join(*out)


def check(ctx, make, r1, r2, t, a, mat, pose, dense):
    real = make()
    tree = lens.lens(r1, r2, t, a, mat)
    rays = bundle(r1, r2, t, a, dense)
    if pose:
        p = oracle.Pose()
        for op in pose:
            oracle.apply_op(real, op)
            p.apply(op)
            for l in oracle.leaves(tree):
                l.pose.apply(op)
        rays = np.stack([np.asarray(oracle.mm(p.m, rays[k].astype(oracle.LD)), dtype=float) for k in (0, 1)])
    lens.compare(ctx, real, tree, rays, "lens")
    want = scene.material(mat)
    ctx.expect(all(s.material is want for _, s in real.surface_ids), "a face of the lens has another material")


def resized(ctx, real, tree, rays, s, what):
    """the object is s times as large as the model"""
    for l, (_, surf) in zip(oracle.leaves(tree), real.surface_ids):
        if l.real is None:
            l.real = surf
    world = rays.copy()
    world[0, :3] *= s
    hits, _ = real.intersect(world)
    scene.compare_hits(ctx, np.atleast_2d(hits) / s, None, tree, rays, [], f"{what} at {s:g} times the size", check_owner=False)


def run(ctx):
    t = ctx.thorough
    count = 0
    for r1, r2, th, a in core.product(RADII, RADII, THICK, APERTURES):
        if not documented(r1, r2, th, a):
            ctx.count("not documented")
            continue
        count += 1
        for k, pose in enumerate(POSES):
            if k and not t and count % 11 != k:
                continue
            for how in ("thick", "thick named"):
                if how != "thick" and (k or not t and count % 5):
                    continue
                data = {"factory": how, "r1": r1, "r2": r2, "thickness": th, "aperture": a, "pose": k}
                if ctx.selected(data):
                    with ctx.case(data, steps=1 + len(pose)):
                        mat = ("n1.5", "BK7", "SF5", "ideal")[count % 4]
                        m = scene.material(mat)
                        ap = list(a) if isinstance(a, tuple) and count % 2 else a
                        make = (lambda: pc.thick_lens(r1, r2, th, aperture=ap, material=m)) if how == "thick" else (
                            lambda: pc.thick_lens(r2=r2, thickness=th, material=m, r1=r1, aperture=np.array(a) if np.ndim(a) else a))
                        check(ctx, make, r1, r2, th, a, mat, pose, t)
        # the same shape from the other factories, whatever the signs they are given
        if r1 > 0 and (r2 < 0 or np.isinf(r2)) and (count % 2 or t):
            for s1, s2 in ((1, 1), (-1, -1), (1, -1), (-1, 1)):
                if not t and (count + s1 + s2) % 3:
                    continue
                data = {"factory": "biconvex", "r1": s1 * r1, "r2": s2 * abs(r2), "thickness": th, "aperture": a}
                if ctx.selected(data):
                    with ctx.case(data):
                        check(ctx, lambda: pc.biconvex_lens(s1 * r1, s2 * abs(r2), th, aperture=a, material=scene.material("SF2")),
                              r1, -abs(r2), th, a, "SF2", [], t)
        if np.isinf(r1) and (r2 < 0 or np.isinf(r2)):
            for s in (1, -1):
                for k, pose in enumerate(POSES[:1] if not t else POSES):
                    data = {"factory": "plano", "r": s * abs(r2), "thickness": th, "aperture": a, "pose": k}
                    if ctx.selected(data):
                        with ctx.case(data):
                            check(ctx, lambda: pc.plano_convex_lens(s * abs(r2), th, aperture=a, material=scene.material("n2")),
                                  INF, -abs(r2), th, a, "n2", pose, t)
    # the same sizes given as other types of number and of sequence
    for a, (r1, r2) in core.product([1, 0.5, (1.0, 0.5), (2, 1), (-1.0, -0.5), (-2, -1)], ((8, -8), (4, INF), (-8.0, 4.0), (INF, -6), (INF, INF))):
        for (ka, va), (k1, v1), (kt, vt) in core.product(lens.spellings(a), lens.spellings(r1) if np.isfinite(r1) else [("inf", r1)], lens.spellings(1)):
            data = {"spelled": [ka, k1, kt], "r1": r1, "r2": r2, "aperture": a}
            if (t or (ka, k1, kt)[0] in ("tuple", "float") or k1 in ("whole", "inf") and kt == "whole") and ctx.selected(data):
                with ctx.case(data):
                    check(ctx, lambda: pc.thick_lens(v1, r2, vt, aperture=va), r1, r2, 1, a, "ideal", [], False)
                    if r1 > 0 and (r2 < 0 or np.isinf(r2)):
                        check(ctx, lambda: pc.biconvex_lens(v1, r2, vt, aperture=va), r1, -abs(r2), 1, a, "ideal", [], False)
                    if np.isinf(r2):
                        # the curved face of a plano-convex lens is the second one
                        check(ctx, lambda: pc.plano_convex_lens(v1, vt, aperture=va), INF, -abs(r1), 1, a, "ideal", [], False)
    # concave faces that are hardly larger than the aperture
    for a, k1, k2, th in core.product([0.9, (1.0, 0.4), (0.8, 0.8), (-1.0, -0.4), (-0.5, -1.4), (-0.9, -0.9)], (-1.02, -1.06, INF, 8), (1.02, 1.3, INF, -7), THICK[:2]):
        r1, r2 = (k * lens.reach(a) for k in (k1, k2))
        data = {"close": [k1, k2], "thickness": th, "aperture": a}
        if documented(r1, r2, th, a) and ctx.selected(data):
            with ctx.case(data):
                check(ctx, lambda: pc.thick_lens(r1, r2, th, aperture=a, material=scene.material("BK7")), r1, r2, th, a, "BK7", [], t)
    # weak faces: nearly flat, or of a long focus
    for a, r1, r2, th in core.product([0.9, 10, (1.0, 0.4), (-8.0, -14)], (-300, -2e4, -3e6, INF, 700), (500, 9e4, 2e6, INF, -800), (0.3, 2.5)):
        data = {"weak": [r1, r2], "thickness": th, "aperture": a}
        if not (np.isinf(r1) and np.isinf(r2)) and ctx.selected(data):
            with ctx.case(data):
                check(ctx, lambda: pc.thick_lens(r1, r2, th, aperture=a, material=scene.material("BK7")), r1, r2, th, a, "BK7", [], t)
    # long and narrow openings, very small and very large lenses
    for a, r1, r2, th in core.product([(-0.004, -2.0), (-2.0, -0.01), (0.003, 1.5), (1.7, 0.02), (-1.0, -0.1)], (-4.0, INF, 9), (5, INF, -7), (0.3, 0.05)):
        data = {"narrow": a, "r1": r1, "r2": r2, "thickness": th}
        if documented(r1, r2, th, a) and ctx.selected(data):
            with ctx.case(data):
                check(ctx, lambda: pc.thick_lens(r1, r2, th, aperture=a, material=scene.material("BK7")), r1, r2, th, a, "BK7", [], t)
    for s, a, r1, r2, th in core.product((1e-4, 1e-2, 300, 1e5), [0.9, (1.0, 0.4), (-0.5, -0.9)], (-4.0, INF, 2.1), (5, INF, -7), (0.3,)):
        data = {"unit": s, "aperture": a, "r1": r1, "r2": r2, "thickness": th}
        if ctx.selected(data):
            with ctx.case(data):
                small = tuple(s * v for v in a) if np.ndim(a) else s * a
                resized(ctx, pc.thick_lens(s * r1, s * r2, s * th, aperture=small, material=scene.material("BK7")), lens.lens(r1, r2, th, a, "BK7"),
                        bundle(r1, r2, th, a, t), s, "lens")
    # a hair from the rim, in any unit
    sizes = [1.0, (1.0, 0.4), (-0.5, -0.9), 0.7310585786300049, (0.1234567891, 0.9876543219), (-0.1234567891, -0.9876543219)]
    for u, a, (r1, r2) in core.product((1, 1e-4, 1e-2, 25.4, 300, 1e5), sizes, ((8, -8), (INF, -4.0), (-6, 9.0), (5, INF), (INF, INF), (3.0, 3.5))):
        data = {"a hair from": a, "unit": u, "radii": [r1, r2]}
        if ctx.selected(data):
            with ctx.case(data):
                ua = tuple(u * v for v in a) if np.ndim(a) else u * a
                lens.rims(ctx, pc.thick_lens(u * r1, u * r2, u * 0.4, aperture=ua), a, "lens", size=u)
                if r1 > 0 and r2 < 0:
                    lens.rims(ctx, pc.biconvex_lens(u * r1, u * r2, u * 0.4, aperture=ua), a, "biconvex lens", size=u)
                if np.isinf(r1) and r2 < 0:
                    lens.rims(ctx, pc.plano_convex_lens(u * r2, u * 0.4, aperture=ua), a, "plano-convex lens", size=u)
    # flat faces of either sign
    for a, th, (r1, r2) in core.product([1, 0.3, (1.0, 0.4), (-0.9, -0.9)], THICK, ((-INF, -4.0), (-INF, 3.1), (3.1, -INF), (-4.0, -INF), (-INF, -INF), (-INF, INF), (INF, -INF))):
        data = {"flat": [str(r1), str(r2)], "thickness": th, "aperture": a}
        if documented(r1, r2, th, a) and ctx.selected(data):
            with ctx.case(data):
                flat = lambda r: INF if np.isinf(r) else r
                mat = scene.material("BK7")
                check(ctx, lambda: pc.thick_lens(r1, r2, th, aperture=a, material=mat), flat(r1), flat(r2), th, a, "BK7", [], t)
                check(ctx, lambda: pc.biconvex_lens(r1, r2, th, aperture=a, material=mat), abs(r1), INF if np.isinf(r2) else -abs(r2), th, a, "BK7", [], t)
                if np.isinf(r1):
                    check(ctx, lambda: pc.plano_convex_lens(r2, th, aperture=a, material=mat), INF, INF if np.isinf(r2) else -abs(r2), th, a, "BK7", [], t)
    # defaults
    for name, make, r1, r2 in (("thick", lambda: pc.thick_lens(3, 5, 0.4), 3, 5), ("biconvex", lambda: pc.biconvex_lens(3, 5, 0.4), 3, -5),
                               ("plano", lambda: pc.plano_convex_lens(3, 0.4), INF, -3)):
        if ctx.selected({"defaults": name}):
            with ctx.case({"defaults": name}):
                check(ctx, make, r1, r2, 0.4, 1, "ideal", [], True)
    # lenses that only the faces limit
    for r1, r2, th in core.product((1.0, 2.5), (-1.0, -2.5), (0.4, 0.7)):
        data = {"clip": [r1, r2, th]}
        if ctx.selected(data):
            with ctx.case(data):
                check(ctx, lambda: pc.biconvex_lens(r1, -r2, th, aperture=10, material=scene.material("BK7")), r1, r2, th, 10, "BK7", [], t)
                check(ctx, lambda: pc.thick_lens(r1, r2, th, aperture=(7, 8), material=scene.material("BK7")), r1, r2, th, (7, 8), "BK7", [], t)
