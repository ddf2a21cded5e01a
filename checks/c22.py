"""C22: where mirrors focus.  Focal lengths / radii x thicknesses x apertures x off-axis shifts x poses x ray patterns."""
import itertools
import numpy as np
import pyrayt
import pyrayt.components as pc
import tinygfx.g3d as cg
from pyrayt import materials as matl
from mc import core, lens, oracle, rays as R, trace

LEVEL = "model_checking"
RULE = ("state = mirror (or train of mirrors) with every combination of focus or radius, thickness, aperture and off-axis shift from "
        "the alphabets, in a pose, with a bundle over its whole aperture traced by a real tracer; non-trivial = a reflected ray "
        "whose line was compared with the documented focus")
ASSUMPTIONS = ["rays nearer than 2 % of its size to the rim of the aperture are not sent",
               "scalings of the pose are uniform (a stretched paraboloid has no focus)"]

APERTURES = [1, 0.4, (1.0, 0.4), (0.3, 1.2), (-1.0, -0.5), (-0.4, -1.1)]
OFFS = [(0, 0), (0.5, 0), (0, 0.8), (-0.6, 0.25), (1.3, -0.9)]
POSES = [[], [["rz", 35], ["move", 2, -1, 0.5]], [["scale", 2.5, 2.5, 2.5], ["ry", 90], ["move", 0, 0, 40]],
         [["move", -30, 7, 11], ["rx", 200], ["ry", -63], ["rz", 118]], [["ry", 180], ["move", 0.1, 0, 0]]]
FACE = [-0.97, -0.71, -0.33, -0.04, 0.0, 0.21, 0.56, 0.9]


def pts(a, off, grid):
    """points of the aperture, and never its rim"""
    hy, hz = lens.half(a)
    yz = np.array(list(itertools.product(grid, grid)))
    if not (np.ndim(a) and a[0] > 0):
        yz = yz[np.hypot(*yz.T) < 0.98]
    return yz * (hy, hz) + off


def shoot(mirrors, o, d, pose, limit=2, size=0.0):
    """rays given in the frame of the mirrors, which are moved by the pose: per ray and generation p0, p1 (nan: no such row)"""
    p = oracle.Pose()
    # rays that meet nothing leave no row, so everything is in a big black ball
    ball = cg.Sphere(8 * (np.abs(o).max() + size + 5), material=matl.absorber)
    mirrors = (mirrors if isinstance(mirrors, list) else [mirrors]) + [ball]
    for op in pose:
        for m in mirrors:
            oracle.apply_op(m, op)
        p.apply(op)
    m = np.asarray(p.m, dtype=float)
    o, d = np.asarray(o, dtype=float), np.asarray(d, dtype=float)
    src = trace.Fixed(o @ m[:3, :3].T + m[:3, 3], d @ m[:3, :3].T)
    df = pyrayt.RayTracer(src, mirrors, rays_per_source=len(o), generation_limit=limit).trace()
    out = np.full((limit + 1, 2, 3, len(o)), np.nan)
    g, i = (df[c].to_numpy().astype(int) for c in ("generation", "id"))
    inv = np.asarray(p.i, dtype=float)
    ends = [np.stack([df[c + k].to_numpy() for c in "xyz"]) for k in "01"]
    tilt = np.stack([df[c + "_tilt"].to_numpy() for c in "xyz"])
    for k, e in enumerate(ends):
        out[g, k, :, i] = (inv[:3, :3] @ e + inv[:3, 3:]).T
    dirs = np.full((limit + 1, 3, len(o)), np.nan)
    u = inv[:3, :3] @ tilt
    dirs[g, :, i] = (u / np.linalg.norm(u, axis=0)).T
    return out, dirs


def distance(p, d, q):
    """of a point from the line p + t d, and the t of the closest point"""
    v = np.asarray(q, dtype=float).reshape(3, 1) - p
    t = (v * d).sum(0)
    return np.linalg.norm(v - t * d, axis=0), t


def verdict(ctx, ok, what, **detail):
    ok = np.asarray(ok)
    ctx.evaluations += ok.size
    ctx.nontrivial += ok.size
    ctx.count(what, ok.size)
    if not ok.all():
        i = int(np.nonzero(~ok)[0][0])
        ctx.fail("not so: " + what, n_bad=int((~ok).sum()), ray=i, **{k: np.asarray(v)[..., i] for k, v in detail.items()})
    return ok.all()


def start_on(face, yz, what, ctx, seg, tol):
    """the first segment ends on the optical surface"""
    want = np.stack((face(*yz.T), *yz.T))
    got = seg[0, 1]
    return verdict(ctx, np.abs(got - want).max(axis=0) < tol, what, got=got, want=want)


def parabola(ctx, f, th, a, off, pose, dense):
    face = lambda y, z: (y * y + z * z) / (4 * f) - f
    kw = {"aperture": a} if off == (0, 0) else {"aperture": a, "off_axis": off}
    yz = pts(a, off, FACE if dense else FACE[1::2] + [0.0])
    x = face(*yz.T)
    tol = 2e-6 * (1 + f + abs(x).max())
    # parallel to the axis, from in front
    far = max(x.max(), 0) + 1.7
    seg, d = shoot(pc.parabolic_mirror(f, th, **kw), np.column_stack((np.full(len(yz), far), yz)),
                   np.tile((-1.0, 0, 0), (len(yz), 1)), pose, size=f)
    if start_on(face, yz, "a ray parallel to the axis meets the parabola", ctx, seg, tol):
        miss, t = distance(seg[1, 0], d[1], (0, 0, 0))
        verdict(ctx, (miss < tol) & (t > 0), "a ray parallel to the axis is sent through the focus", miss=miss, direction=d[1])
    # from the focus
    seg, d = shoot(pc.parabolic_mirror(f, th, **kw), np.zeros((len(yz), 3)), np.column_stack((x, yz)), pose, size=f)
    if start_on(face, yz, "a ray from the focus meets the parabola", ctx, seg, tol):
        err = np.abs(d[1] - np.array([[1.0], [0], [0]])).max(axis=0)
        verdict(ctx, err < 1e-7, "a ray from the focus leaves parallel to the axis", direction=d[1])
    # from behind: absorbed by the back of the mirror
    seg, d = shoot(pc.parabolic_mirror(f, th, **kw), np.column_stack((np.full(len(yz), -f - th - 3.0), yz)),
                   np.tile((1.0, 0, 0), (len(yz), 1)), pose, size=f)
    verdict(ctx, (np.abs(seg[0, 1, 0] + f + th) < tol) & np.isnan(seg[1, 0, 0]), "the back of the mirror absorbs", end=seg[0, 1])


def telescope(ctx, f1, f2, a, off, pose, dense):
    """parabola, focus, second parabola facing it: a parallel bundle comes out parallel, magnified by f2 / f1"""
    k = f2 / f1
    a2 = tuple(v * k * 1.2 for v in a) if np.ndim(a) else a * k * 1.2
    off2 = (-off[0] * k, -off[1] * k)
    one = pc.parabolic_mirror(f1, 0.1, aperture=a, off_axis=off)
    # turned about z: x and y change sign
    two = pc.parabolic_mirror(f2, 0.1, aperture=a2, off_axis=(-off2[0], off2[1])).rotate_z(180)
    yz = pts(a, off, FACE if dense else FACE[1::2])
    x1 = (yz ** 2).sum(1) / (4 * f1) - f1
    seg, d = shoot([one, two], np.column_stack((x1 + 0.05 * f1, yz)), np.tile((-1.0, 0, 0), (len(yz), 1)), pose, limit=3)
    tol = 3e-6 * (1 + abs(x1).max() * max(1, k))
    verdict(ctx, np.abs(seg[1, 1, 1:] + k * yz.T).max(axis=0) < tol, "the second mirror is met at the magnified height",
            got=seg[1, 1], start=seg[0, 0])
    verdict(ctx, np.abs(d[2] - np.array([[-1.0], [0], [0]])).max(axis=0) < 1e-7, "two confocal parabolas keep a bundle parallel",
            direction=d[2])


def cats_eye(ctx, f, a, off, tilt, pose, dense):
    """a plane mirror through the focus sends the bundle back: parallel to where it came from, through the other side"""
    k = 1.7
    big = 4 * (lens.reach(a, off) * 2 + f) * k
    para = pc.parabolic_mirror(f, 0.1, aperture=big)
    plane = pc.plane_mirror(0, aperture=f * 0.08).rotate_y(180).rotate_z(tilt)
    yz = pts(a, off, FACE if dense else FACE[1::2])
    yz = yz[np.abs(yz).max(axis=1) > f * 0.1]        # the plane mirror is in the way of the others
    if not len(yz):
        return
    x = (yz ** 2).sum(1) / (4 * f) - f
    seg, d = shoot([para, plane], np.column_stack((np.maximum(x, 0) + 0.5, yz)), np.tile((-1.0, 0, 0), (len(yz), 1)), pose, limit=4)
    tol = 3e-6 * (1 + f + abs(x).max())
    at = np.linalg.norm(seg[1, 1], axis=0)
    verdict(ctx, at < tol, "the bundle meets the plane mirror in the focus", got=seg[1, 1])
    met = ~np.isnan(d[3][0])
    verdict(ctx, np.abs(d[3][:, met] - np.array([[1.0], [0], [0]])).max(axis=0) < 1e-6, "what returns is parallel again",
            direction=d[3][:, met])


def sphere(ctx, r, th, a, off, pose, dense):
    s = np.sign(r)
    face = lambda y, z: s * (abs(r) - np.sqrt(r * r - y * y - z * z))
    kw = {"aperture": a} if off == (0, 0) else {"aperture": a, "off_axis": off}
    yz = pts(a, off, FACE if dense else FACE[1::2] + [0.0])
    tol = 2e-6 * (1 + abs(r))
    # from the center and back
    seg, d = shoot(pc.spherical_mirror(r, th, **kw), np.tile((r, 0, 0), (len(yz), 1)),
                   np.column_stack((face(*yz.T) - r, yz)), pose, size=abs(r))
    if start_on(face, yz, "a ray from the center meets the sphere", ctx, seg, tol):
        miss, t = distance(seg[1, 0], d[1], (r, 0, 0))
        verdict(ctx, (miss < tol) & (t > 0), "a ray from the center returns to it", miss=miss)
    # parallel to the axis: through the axis at r - r / (2 cos a), which is r / 2 near the axis
    seg, d = shoot(pc.spherical_mirror(r, th, **kw), np.column_stack((np.full(len(yz), s * abs(r)), yz)),
                   np.tile((-s, 0, 0), (len(yz), 1)), pose)
    if start_on(face, yz, "a ray parallel to the axis meets the sphere", ctx, seg, tol):
        h = np.hypot(*yz.T)
        q = r - r / 2 / np.sqrt(1 - (h / r) ** 2)
        v = np.stack((q, 0 * q, 0 * q)) - seg[1, 0]
        t = (v * d[1]).sum(0)
        miss = np.linalg.norm(v - t * d[1], axis=0)
        verdict(ctx, (miss < tol * 5) & (t > 0), "a parallel ray crosses the axis where it should", miss=miss)


def near_axis(ctx, r, th, a, pose):
    """the limit: heights going to zero"""
    s = np.sign(r)
    h = np.array([k * abs(r) for k in (1e-1, 3e-2, 1e-2, 3e-3, 1e-3, 1e-4) if k * abs(r) < min(lens.half(a)) * 0.95])
    az = np.array([0.3, 1.9, 3.5, 5.2])
    yz = np.array([(k * np.cos(b), k * np.sin(b)) for k in h for b in az])
    seg, d = shoot(pc.spherical_mirror(r, th, aperture=a), np.column_stack((np.full(len(yz), s * abs(r) * 1.3), yz)),
                   np.tile((-s, 0, 0), (len(yz), 1)), pose)
    rho = np.hypot(*yz.T)
    # where it crosses the axis
    t = -(seg[1, 0, 1:] * yz.T).sum(0) / (d[1][1:] * yz.T).sum(0)
    x = seg[1, 0, 0] + t * d[1][0]
    off = np.hypot(*(seg[1, 0, 1:] + t * d[1][1:]))
    verdict(ctx, (np.abs(x - r / 2) < 0.3 * rho ** 2 / abs(r) + 1e-6 + 1e-8 * r * r / rho) & (off < 1e-6 * (1 + abs(r))) & (t > 0),
            "a near-axis ray goes through half the radius", height=rho, crosses=x)


def planes(ctx, th, a, off, pose, dense):
    yz = pts(a, off, FACE if dense else FACE[1::2] + [0.0])
    for u in ((-1, 0, 0), (-0.8, 0.6, 0), (-0.3, -0.2, 0.9), (1, 0.1, -0.4), (0.4, 0.9, 0.2)):
        u = R.unit(u)
        x = 0.0 if u[0] < 0 else -th
        o = np.column_stack((np.full(len(yz), x), yz)) - 2.0 * u
        seg, d = shoot(pc.plane_mirror(th, aperture=a, off_axis=off), o, np.tile(u, (len(yz), 1)), pose)
        want = u * (-1, 1, 1)
        verdict(ctx, (np.abs(seg[0, 1, 0] - x) < 1e-6) & (np.abs(d[1] - want[:, None]).max(axis=0) < 1e-8),
                "a plane mirror deviates all rays alike", got=d[1], end=seg[0, 1])


def corner(ctx, th, pose, dense):
    """three perpendicular mirrors send every ray back; two at an angle turn it by twice that angle"""
    g = [0.31, 0.83, 1.37] if not dense else [0.31, 0.62, 0.83, 1.37, 1.81]
    o = np.array(list(itertools.product((3.3, 2.9), g, g)))
    for u in ((-1, -0.21, -0.13), (-1, -0.9, -0.7), (-0.8, -0.45, -1.1)):
        u = R.unit(u)
        # each is the plane through the origin its name says, thickness away from the octant of the rays
        ms = [pc.plane_mirror(th, aperture=(60, 60)), pc.plane_mirror(th, aperture=(60, 60)).rotate_z(90),
              pc.plane_mirror(th, aperture=(60, 60)).rotate_y(-90)]
        seg, d = shoot(ms, o, np.tile(u, (len(o), 1)), pose, limit=5)
        rows = (~np.isnan(d[:, 0])).sum(0)
        verdict(ctx, (rows == 4) & (np.abs(d[3] + u[:, None]).max(axis=0) < 1e-7), "a corner of three mirrors sends rays back",
                got=d[3], rows=rows)
    for angle in (30, 45, 60, 90):
        b = np.radians(angle)
        # first mirror x = 0, second turned about z so that the wedge between them is `angle` wide
        ms = [pc.plane_mirror(th, aperture=(20, 20)).move(0, 10.01, 0),
              pc.plane_mirror(th, aperture=(20, 20)).rotate_z(180 - angle).move(10.01 * np.sin(b), 10.01 * np.cos(b), 0)]
        # come in so that the first mirror sends the ray to the second
        mid = np.array([6 * np.sin(b), 6 * np.cos(b), 0.2])
        hits1 = np.array([(0, y, z) for y in (3.0, 4.1, 5.3) for z in g])
        u = R.unit(mid - hits1)
        o = hits1 - 1.5 * u * (-1, 1, 1)
        seg, d = shoot(ms, o, u * (-1, 1, 1), pose, limit=5)
        n = np.array([-np.cos(b), np.sin(b), 0])
        want = (u - 2 * (u @ n)[:, None] * n).T
        verdict(ctx, np.abs(d[2] - want).max(axis=0) < 1e-7, "two mirrors turn a ray by twice their angle", got=d[2], want=want)


def run(ctx):
    t = ctx.thorough
    count = 0
    focal = [0.3, 1.0, 4.0, 30.0, 200.0]
    for f, th, a, off in core.product(focal, (0.15, 0.6), APERTURES, OFFS):
        count += 1
        for k, pose in enumerate(POSES):
            if k and not t and count % 9 != k:
                continue
            data = {"parabola": f, "thickness": th, "aperture": a, "off_axis": off, "pose": k}
            if ctx.selected(data):
                with ctx.case(data, steps=3 * (1 + len(pose))):
                    parabola(ctx, f, th, a, off, pose, t)
    for f1, ratio, a, off in core.product((0.5, 3.0), (0.6, 1.0, 2.2), APERTURES, ((2.0, 0), (0, -1.7), (1.4, 1.6))):
        count += 1
        for k, pose in enumerate(POSES):
            if k and not t and count % 9 != k:
                continue
            data = {"telescope": f1, "ratio": ratio, "aperture": a, "off_axis": off, "pose": k}
            if ctx.selected(data):
                with ctx.case(data, steps=3 + len(pose)):
                    telescope(ctx, f1, f1 * ratio, a, off, pose, t)
    for f, a, off, tilt in core.product((0.5, 2.0), (1, (1.0, 0.4)), ((0, 0), (0.9, 0.3)), (0, 4, -7)):
        for k, pose in enumerate(POSES if t else POSES[:2]):
            data = {"cats eye": f, "aperture": a, "off_axis": off, "tilt": tilt, "pose": k}
            if ctx.selected(data):
                with ctx.case(data, steps=3 + len(pose)):
                    cats_eye(ctx, f, a, off, tilt, pose, t)
    for r, th, a, off in core.product((3.0, 8.0, 60.0, 900.0, -3.0, -9.0), (0.15, 0.6), APERTURES, OFFS):
        if abs(r) < lens.reach(a, off) * 1.05:
            continue
        count += 1
        for k, pose in enumerate(POSES):
            if k and not t and count % 9 != k:
                continue
            data = {"sphere": r, "thickness": th, "aperture": a, "off_axis": off, "pose": k}
            if ctx.selected(data):
                with ctx.case(data, steps=2 * (1 + len(pose))):
                    sphere(ctx, r, th, a, off, pose, t)
    for r, a in core.product((3.0, 8.0, 60.0, -3.0, -60.0), (1, (1.0, 0.7), (-0.8, -1.1))):
        for k, pose in enumerate(POSES):
            data = {"near axis": r, "aperture": a, "pose": k}
            if ctx.selected(data):
                with ctx.case(data, steps=1 + len(pose)):
                    near_axis(ctx, r, 0.2, a, pose)
    for th, a, off in core.product((0, 0.02, 0.3), APERTURES, OFFS):
        count += 1
        for k, pose in enumerate(POSES):
            if k and not t and count % 4 != k - 1:
                continue
            data = {"plane": th, "aperture": a, "off_axis": off, "pose": k}
            if ctx.selected(data):
                with ctx.case(data, steps=5 * (1 + len(pose))):
                    planes(ctx, th, a, off, pose, t)
    for th, (k, pose) in core.product((0, 0.1, 0.5), list(enumerate(POSES))):
        data = {"corner": th, "pose": k}
        if ctx.selected(data):
            with ctx.case(data, steps=7 * (3 + len(pose))):
                corner(ctx, th, pose, t)
