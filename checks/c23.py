"""C23: baffles, apertures and prisms: extent, material, and what they do to rays."""
import itertools
import numpy as np
import pyrayt
import pyrayt.components as pc
from mc import core, lens, oracle, scene, trace, rays as R
from checks import c19

LEVEL = "model_checking"
RULE = ("state = baffle, aperture or prism with every combination of outline, opening and size from the alphabets, in "
        "several poses; hits, normals and materials along lines through and past it are compared with the documented shape, "
        "and bundles are traced through it between a source and a screen; non-trivial = a line that meets it")
ASSUMPTIONS = ["lines within 1e-6 of an outline are not compared",
               "a prism is a triangle in the XZ plane with its base parallel to XY, extended along y (its documentation names "
               "the base and the centre)"]
OUTLINES = [1.0, 0.35, (1.0, 0.4), (0.3, 1.2), (0.7, 0.7), (-1.0, -0.5), (-0.4, -1.1), (-0.8, -0.8)]


def bundle(a, dense, more=()):
    hy, hz = lens.half(a)
    g = [-1.21, -1.02, -0.97, -0.55, -0.12, 0.03, 0.31, 0.66, 0.91, 1.06, 1.3] if dense else [-1.13, -0.83, -0.31, 0.03, 0.27, 0.9]
    yz = [(y * hy, z * hz) for y in g for z in g] + list(more)
    yz = np.array(yz)
    n = len(yz)
    out = []
    for s, tilt in ((1, (0, 0)), (-1, (0, 0)), (1, (0.3, -0.2)), (-1, (1e-7, 1e-6)), (-1, (2.5, -1.9))):
        o = np.column_stack((np.full(n, -s * 5.0), yz[:, 0], yz[:, 1]))
        d = np.tile(np.array((s, *tilt), float), (n, 1))
        o[:, 1:] -= np.array(tilt) * 5.0
        out.append(R.bundle(o, R.unit(d)))
    out.append(R.cross([(0.01, -3, 0.02), (-0.3, 0.1, 3)], [(0, 1, 0), (0, 0, -1)]))
    return R.join(*out)


def rim(a):
    """points just inside and outside of an opening"""
    hy, hz = lens.half(a)
    t = np.linspace(0.1, 0.1 + 2 * np.pi, 9)[:-1]
    k = np.concatenate([np.full(8, f) for f in (0.5, 0.97, 1.03, 1.2)])
    t = np.tile(t, 4)
    y, z = k * np.cos(t), k * np.sin(t)
    if np.ndim(a) and a[0] > 0:
        m = np.maximum(np.abs(np.cos(t)), np.abs(np.sin(t)))
        y, z = y / m, z / m
    return list(zip(y * hy, z * hz))


def place(real, tree, pose, rays):
    p = oracle.Pose()
    for op in pose:
        oracle.apply_op(real, op)
        p.apply(op)
        for l in oracle.leaves(tree):
            l.pose.apply(op)
    if pose:
        rays = np.stack([np.asarray(oracle.mm(p.m, rays[k].astype(oracle.LD)), dtype=float) for k in (0, 1)])
    return rays


def through(ctx, real, tree, rays, pose, what, glass=None):
    """trace the bundle to a far enclosing screen"""
    unit = rays.copy()
    unit[1] /= np.linalg.norm(rays[1], axis=0)
    src = trace.Fixed(unit[0, :3].T, unit[1, :3].T, wavelength=0.55)
    screen = scene.build(scene.leaf("sphere", [60], [], "absorb"))
    df = pyrayt.RayTracer(src, [real, screen.real], rays_per_source=len(src), generation_limit=7).trace()
    trace.conform(ctx, df, trace.emit(src, len(src)), [trace.Part(tree, real), screen], 7, what=what, tol=1e-6)


def run(ctx):
    t = ctx.thorough
    count = 0
    for a in OUTLINES + [2, 5.0, (2, 3)]:
        for k, pose in enumerate(c19.POSES):
            data = {"baffle": a, "pose": k}
            if ctx.selected(data):
                with ctx.case(data, steps=1 + len(pose)):
                    real, tree = pc.baffle(a if not np.ndim(a) or k != 1 else list(a)), lens.sheet(a)
                    rays = place(real, tree, pose, bundle(a, t, rim(a)))
                    lens.compare(ctx, real, tree, rays, "baffle")
                    through(ctx, real, tree, rays, pose, "trace past a baffle")
    for a, b in core.product([2.2, (2.0, 2.4), (-2.5, -2.1), 1.0, (1.2, 0.8), (-1.0, -1.3)], OUTLINES):
        count += 1
        for k, pose in enumerate(c19.POSES):
            if k and not t and count % 3 != k:
                continue
            data = {"aperture": a, "opening": b, "pose": k}
            if ctx.selected(data):
                with ctx.case(data, steps=1 + len(pose)):
                    real, tree = pc.aperture(a, b), lens.stop(a, b)
                    rays = place(real, tree, pose, bundle(a, t, rim(b)))
                    lens.compare(ctx, real, tree, rays, "aperture")
                    through(ctx, real, tree, rays, pose, "trace through an aperture")
    # the same sizes given as other types of number and of sequence
    shapes = [1, 0.5, (1.0, 0.5), (2, 1), (-1.0, -0.5), (-2, -1)]
    for a, b in core.product([4] + shapes, shapes):
        for (ka, va), (kb, vb) in core.product(lens.spellings(a), lens.spellings(b)):
            data = {"spelled": [ka, kb], "aperture": a, "opening": b}
            if (t or ka in ("tuple", "whole") or kb in ("tuple", "float")) and ctx.selected(data):
                with ctx.case(data):
                    if b == shapes[0]:
                        real, tree = pc.baffle(va), lens.sheet(a)
                        lens.compare(ctx, real, tree, bundle(a, False, rim(a)), "baffle")
                    real, tree = pc.aperture(va, vb), lens.stop(a, b)
                    lens.compare(ctx, real, tree, bundle(a, False, rim(b)), "aperture")
    for (ks, vs), (kw, vw) in core.product(lens.spellings(2), lens.spellings(3)):
        data = {"spelled prism": [ks, kw]}
        if ctx.selected(data):
            with ctx.case(data):
                real, tree = pc.equilateral_prism(vs, vw), lens.prism(2, 3, "BK7")
                lens.compare(ctx, real, tree, bundle((2.0, 3.0), False), "prism")
    # a hair from the outline, in any unit
    sizes = OUTLINES + [2, (2, 3), 0.7310585786300049, (0.1234567891, 1.9876543219), (-0.1234567891, -1.9876543219)]
    for u, a in core.product((1, 1e-4, 1e-2, 25.4, 300, 1e5), sizes):
        data = {"a hair from": a, "unit": u}
        if ctx.selected(data):
            with ctx.case(data):
                ua = tuple(u * v for v in a) if np.ndim(a) else u * a
                lens.rims(ctx, pc.baffle(ua), a, "baffle", size=u)
                big = [3.3 * u * max(lens.half(a)), (3.1 * u * max(lens.half(a)), 2.9 * u * max(lens.half(a)))]
                for b in big:
                    lens.rims(ctx, pc.aperture(b, ua), a, "aperture", hole=True, size=u)
                small = tuple(0.4 * u * min(lens.half(a)) for _ in a) if np.ndim(a) else 0.4 * u * a
                lens.rims(ctx, pc.aperture(ua, small), a, "aperture", size=u)
    # long and narrow, very small and very large
    slits = [(-0.004, -2.0), (-2.0, -0.01), (0.003, 1.5), (1.7, 0.02)]
    for a in slits:
        data = {"baffle": a}
        if ctx.selected(data):
            with ctx.case(data):
                real, tree = pc.baffle(a), lens.sheet(a)
                lens.compare(ctx, real, tree, bundle(a, t, rim(a)), "baffle")
    for a, b in core.product([2.2, (5.0, 4.5), (-5.0, -4.5), (-0.01, -3.0)], slits):
        if not np.ndim(a) or min(np.abs(a)) > 1 or b == slits[0]:
            data = {"aperture": a, "opening": b}
            if ctx.selected(data):
                with ctx.case(data):
                    real, tree = pc.aperture(a, b), lens.stop(a, b)
                    lens.compare(ctx, real, tree, bundle(a, t, rim(b)), "aperture")
    for s, a, b in core.product((1e-4, 1e-2, 300, 1e5), [1.0, (1.2, 0.8), (-1.0, -1.3)], OUTLINES[::2]):
        data = {"unit": s, "aperture": a, "opening": b}
        if ctx.selected(data):
            with ctx.case(data):
                sa, sb = (tuple(s * v for v in q) if np.ndim(q) else s * q for q in (a, b))
                c19.resized(ctx, pc.baffle(sb), lens.sheet(b), bundle(b, t, rim(b)), s, "baffle")
                if max(lens.half(b)) < 0.9 * min(lens.half(a)):
                    c19.resized(ctx, pc.aperture(sa, sb), lens.stop(a, b), bundle(a, t, rim(b)), s, "aperture")
    for s, w, u in core.product((1.0, 0.3, 4.0), (1.0, 0.25, 3.0), (1e-4, 1e-2, 300, 1e5)):
        data = {"prism": s, "width": w, "unit": u}
        if ctx.selected(data):
            with ctx.case(data):
                pts = prism_points(s, w, t)
                rays = R.join(R.aim([(-5.1 * s, 0.1, 0.2), (0.2, 6.1 * s + 2 * w, 0.3), (0.1 * s, 0.05 * w, -0.07 * s)], pts),
                              R.cross(pts[::9], [(1, 0, 0), (0, 1, 0), (0.02, 0.01, -1)]))
                c19.resized(ctx, pc.equilateral_prism(u * s, u * w), lens.prism(s, w, "BK7"), rays, u, "prism")
    # long and flat ones
    for s, w in ((1.0, 12.0), (0.2, 40.0), (1.0, 900.0), (30.0, 0.1), (200.0, 25.0), (1e-3, 1e-2), (1e3, 1e-1)):
        data = {"prism": s, "width": w}
        if ctx.selected(data):
            with ctx.case(data):
                pts = prism_points(s, w, t)
                m = max(s, w)
                rays = R.join(R.aim([(-5.1 * s, 0.1 * w, 0.2 * s), (0.2 * s, 6.1 * s + 2 * w, 0.3 * s), (0.3 * s, 0.2 * w, 4 * m)], pts),
                              R.cross(pts[::3], [(1, 0, 0), (0, 1, 0), (0.02, 0.01, -1)]))
                lens.compare(ctx, pc.equilateral_prism(s, w), lens.prism(s, w, "BK7"), rays, "prism")
    for s, w, m in core.product((1.0, 0.3, 4.0), (1.0, 0.25, 3.0), ("BK7", "n1.3", "SF5", None, "mirror")):
        for k, pose in enumerate(c19.POSES):
            data = {"prism": s, "width": w, "material": m, "pose": k}
            if ctx.selected(data):
                with ctx.case(data, steps=1 + len(pose)):
                    name = m or "BK7"
                    real = pc.equilateral_prism(s, w, scene.material(m)) if m else pc.equilateral_prism(width=w, side_length=s)
                    tree = lens.prism(s, w, name)
                    pts = prism_points(s, w, t)
                    rays = R.join(R.aim([(-5.1 * s, 0.1, 0.2), (0.2, 6.1 * s + 2 * w, 0.3), (0.1 * s, 0.05 * w, -0.07 * s)], pts),
                                  R.cross(pts[::9], [(1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, 0, 1), (0.02, 0.01, -1)]))
                    rays = place(real, tree, pose, rays)
                    lens.compare(ctx, real, tree, rays, "prism")
                    if k < 2:
                        through(ctx, real, tree, rays[:, :, ::3], pose, "trace through a prism")
                    if k == 0 and name not in ("mirror",):
                        deviation(ctx, real, s, name)


def prism_points(s, w, t):
    g = [-1.13, -0.74, -0.33, 0.06, 0.42, 0.83, 1.2] if t else [-1.1, -0.62, 0.04, 0.37, 0.91]
    return [(x * s / 2, y * w / 2, z * s * 0.433) for x, y, z in itertools.product(g, repeat=3)]


def deviation(ctx, real, s, name):
    """the textbook deviation of a ray in the plane of the triangle, entering the left face at an angle, for several colours"""
    for wl in (0.42, 0.55, 0.7):
        n = float(trace.glass_index(name, wl))
        for deg in (35.0, 42.0, 48.6, 55.0, 70.0):
            i1 = np.deg2rad(deg)
            r1 = np.arcsin(np.sin(i1) / n)
            r2 = np.pi / 3 - r1
            if n * np.sin(r2) > 0.99:
                continue
            want = i1 + np.arcsin(n * np.sin(r2)) - np.pi / 3
            # the left face leans over by 30 degrees: its normal points to (-cos 30, 0, sin 30)
            ang = np.deg2rad(-30) + i1
            d = np.array([np.cos(ang), 0, np.sin(ang)])
            p = np.array([-s / 4, 0.03 * s, -0.02 * s])
            src = trace.Fixed([p - 2 * s * d], [d], wavelength=wl)
            screen = scene.build(scene.leaf("sphere", [50 * s], [], "absorb"))
            df = pyrayt.RayTracer(src, [real, screen.real], rays_per_source=1).trace()
            if len(df) != 3:        # leaves through the base
                ctx.count("other face")
                continue
            out = df[["x_tilt", "y_tilt", "z_tilt"]].to_numpy()[-1]
            got = np.arccos(np.clip(out @ d, -1, 1))
            ctx.expect(abs(got - want) < 1e-7, "prism: wrong deviation", wavelength=wl, angle=deg, got=float(got), want=float(want))
            ctx.count("deviation")
