"""C21: mirror factories.  Focal lengths / radii x thicknesses x apertures x off-axis shifts x poses."""
import numpy as np
import pyrayt.components as pc
from mc import core, lens, oracle, scene, rays as R
from checks import c19

LEVEL = "model_checking"
RULE = ("state = mirror factory with every combination of focus or radius, thickness, aperture (circle, rectangle, ellipse) "
        "and off-axis shift from the alphabets, in several poses; hits, normals and the material of every face along a bundle "
        "of lines through all of the mirror are compared with the documented region; non-trivial = a line that meets it")
ASSUMPTIONS = ["the aperture lies within the sphere of a spherical mirror", "negative radii give the mirror image"]

INF = float("inf")
APERTURES = [1, 0.4, (1.0, 0.4), (0.3, 1.2), (0.6, 0.6), (-1.0, -0.5), (-0.4, -1.1)]
OFFS = [(0, 0), (0.5, 0), (0, 0.8), (-0.6, 0.25), (1.3, -0.9)]
THICK = [0.15, 0.6]


def bundle(face, back, a, off, dense):
    """face(y, z): height of the optical surface"""
    hy, hz = lens.half(a)
    g = [-1.17, -0.88, -0.41, 0.06, 0.35, 0.83, 1.14] if dense else [-1.13, -0.79, -0.27, 0.31, 0.88]
    yz = np.array([(off[0] + y * hy, off[1] + z * hz) for y in g for z in g])
    n = len(yz)
    with np.errstate(invalid="ignore"):
        x = np.concatenate(([back], face(*yz[(np.abs(yz - off) <= (hy, hz)).all(axis=1)].T)))
    x0, x1 = np.nanmin(x), np.nanmax(x)
    out = []
    for s, tilt in ((1, (0, 0)), (-1, (0, 0)), (1, (0.02, -0.013)), (-1, (1e-7, 1e-6)), (-1, (0.15, -0.11))):
        o = np.column_stack((np.full(n, -s * 7.0 + (x0 + x1) / 2), yz[:, 0], yz[:, 1]))
        o[:, 1:] -= np.array(tilt) * 7.0
        out.append(R.bundle(o, np.tile(R.unit((s, *tilt)), (n, 1))))
    mid = [(x0 + (x1 - x0) * k, off[0] + y * hy, off[1] + z * hz) for k in (-0.08, 0.06, 0.33, 0.55, 0.91, 1.06) for y, z in
           ((0.05, 0.03), (0.71, 0.13), (-0.2, 0.77), (-0.63, -0.59), (0.93, 0.94), (1.04, -0.2))]
    eyes = [(0.1, 6.3, 0.2), (-0.15, 0.3, -7.1), (1.9, 3.2, 2.7), (x0 * 0.7 + x1 * 0.3, off[0] + 0.1 * hy, off[1] - 0.2 * hz)]
    out.append(R.aim(eyes if dense else eyes[:1] + eyes[2:], mid))
    return R.join(*out)


def check(ctx, real, tree, rays, pose, what):
    if pose:
        p = oracle.Pose()
        for op in pose:
            oracle.apply_op(real, op)
            p.apply(op)
            for l in oracle.leaves(tree):
                l.pose.apply(op)
        rays = np.stack([np.asarray(oracle.mm(p.m, rays[k].astype(oracle.LD)), dtype=float) for k in (0, 1)])
    lens.compare(ctx, real, tree, rays, what)


def run(ctx):
    t = ctx.thorough
    count = 0
    focal = [0.3, 1.0, 4.0, 30.0]
    # just large enough for the aperture, or fixed
    radii = [1.02, -1.06, 3.0, 8.0, 60.0, INF, -3.0, -9.0, -INF]
    for kind, vals in (("parabolic", focal), ("spherical", radii), ("plane", [0])):
        for v, th, a, off in core.product(vals, THICK if kind != "plane" else THICK + [0.02], APERTURES, OFFS):
            far = lens.reach(a, off)
            if kind == "spherical" and abs(v) < 1.1:
                v *= far
            elif kind == "spherical" and abs(v) < far * 1.01:
                continue
            count += 1
            for k, pose in enumerate(c19.POSES):
                if k and not t and count % 7 != k:
                    continue
                data = {"mirror": kind, "value": v, "thickness": th, "aperture": a, "off_axis": off, "pose": k}
                if not ctx.selected(data):
                    continue
                with ctx.case(data, steps=1 + len(pose)):
                    mname = ("mirror", "mirror", "n1.5")[count % 3]
                    m = scene.material(mname)
                    kw = {"aperture": a, "off_axis": off, "material": m}
                    if mname == "mirror" and count % 2:
                        del kw["material"]      # the default
                    if off == (0, 0):
                        del kw["off_axis"]
                    if kind == "parabolic":
                        real = pc.parabolic_mirror(v, th, **kw) if count % 2 else pc.parabolic_mirror(thickness=th, focus=v, **kw)
                        tree = lens.parabolic(v, th, a, off, mname)
                        rays = bundle(lambda y, z: (y * y + z * z) / (4 * v) - v, -v - th, a, off, t)
                    elif kind == "spherical":
                        real = pc.spherical_mirror(v, th, **kw) if count % 2 else pc.spherical_mirror(thickness=th, radius=v, **kw)
                        tree = lens.spherical(v, th, a, off, mname)
                        face = (lambda y, z: 0 * y) if np.isinf(v) else (
                            lambda y, z: np.sign(v) * (abs(v) - np.sqrt(v * v - y * y - z * z)))
                        rays = bundle(face, -np.sign(v) * th, a, off, t)
                        if np.isinf(v):      # the whole front plane is the optical surface, everything else absorbs
                            plane_case(ctx, real, v, th, a, off, m, rays, pose)
                            continue
                    else:
                        real = pc.plane_mirror(th, **kw)
                        tree = lens.plane(th, a, off, mname)
                        rays = bundle(lambda y, z: 0 * y, -th, a, off, t)
                    check(ctx, real, tree, rays, pose, f"{kind} mirror")
    # the same sizes given as other types of number and of sequence
    for a, off in core.product([1, 0.5, (1.0, 0.5), (2, 1), (-1.0, -0.5), (-2, -1)], [(0, 0), (1, 2), (0.5, -0.25)]):
        for kind, (ka, va), (ko, vo), (kv, vv) in core.product(("plane", "spherical", "parabolic"), lens.spellings(a), lens.spellings(off), lens.spellings(8)):
            data = {"spelled": [kind, ka, ko, kv], "aperture": a, "off_axis": off}
            if (t or ko == "tuple" and kv == "whole" or ka in ("tuple", "float") and (kv == "float" or ko == "tuple")) and (kind != "plane" or kv == "whole") and ctx.selected(data):
                with ctx.case(data):
                    kw = {"aperture": va, "off_axis": vo}
                    if kind == "plane":
                        check(ctx, pc.plane_mirror(0.3, **kw), lens.plane(0.3, a, off, "mirror"), bundle(lambda y, z: 0 * y, -0.3, a, off, False), [], "plane mirror")
                    elif kind == "spherical":
                        check(ctx, pc.spherical_mirror(vv, 0.3, **kw), lens.spherical(8, 0.3, a, off, "mirror"),
                              bundle(lambda y, z: 8 - np.sqrt(64 - y * y - z * z), -0.3, a, off, False), [], "spherical mirror")
                    else:
                        check(ctx, pc.parabolic_mirror(vv, 0.3, **kw), lens.parabolic(8, 0.3, a, off, "mirror"),
                              bundle(lambda y, z: (y * y + z * z) / 32 - 8, -8.3, a, off, False), [], "parabolic mirror")
    # a hair from the rim, in any unit
    sizes = [1.0, (1.0, 0.4), (-0.5, -0.9), 0.7310585786300049, (0.1234567891, 0.9876543219), (-0.1234567891, -0.9876543219)]
    for u, a, off in core.product((1, 1e-4, 1e-2, 25.4, 300, 1e5), sizes, ((0, 0), (1.0, -0.3), (0, 0.7))):
        data = {"a hair from": a, "unit": u, "off_axis": off}
        if ctx.selected(data):
            with ctx.case(data):
                kw = {"aperture": tuple(u * v for v in a) if np.ndim(a) else u * a, "off_axis": tuple(u * v for v in off)}
                for th in (0, 0.3):
                    lens.rims(ctx, pc.plane_mirror(u * th, **kw), a, "plane mirror", off=off, size=u)
                for v in (4.0, -4.0, np.inf):
                    lens.rims(ctx, pc.spherical_mirror(u * v, u * 0.3, **kw), a, "spherical mirror", off=off, size=u)
                lens.rims(ctx, pc.parabolic_mirror(u * 3.0, u * 0.3, **kw), a, "parabolic mirror", off=off, size=u)
    # back planes that cut into the curved surface
    for r, th, a in core.product((2.0, 3.0), (-0.1, -0.02), (2.0, (2.4, 1.8))):
        data = {"mirror": "spherical", "value": r, "thickness": th, "aperture": a}
        if ctx.selected(data):
            with ctx.case(data):
                real = pc.spherical_mirror(r, th, aperture=a)
                tree = lens.spherical(r, th, a, (0, 0), "mirror")
                check(ctx, real, tree, bundle(lambda y, z: r - np.sqrt(r * r - y * y - z * z), 0.0, a, (0, 0), t), [], "cut mirror")
    # weak mirrors: nearly flat, or of a long focus
    for v, th, a, off in core.product((500.0, 2e4, 1e6), (0.3, 2.5), (1.0, 30, (8.0, 14.0), (-9.0, -5.0)), ((0, 0), (20.0, -7.0))):
        for kind in ("parabolic", "spherical", "behind"):
            data = {"weak": kind, "value": v, "thickness": th, "aperture": a, "off_axis": off}
            if ctx.selected(data):
                with ctx.case(data):
                    if kind == "parabolic":
                        check(ctx, pc.parabolic_mirror(v, th, aperture=a, off_axis=off), lens.parabolic(v, th, a, off, "mirror"),
                              bundle(lambda y, z: (y * y + z * z) / (4 * v) - v, -v - th, a, off, t), [], "weak mirror")
                    else:
                        r = v if kind == "spherical" else -v
                        check(ctx, pc.spherical_mirror(r, th, aperture=a, off_axis=off), lens.spherical(r, th, a, off, "mirror"),
                              bundle(lambda y, z: np.sign(r) * (y * y + z * z) / (v + np.sqrt(v * v - y * y - z * z)), -np.sign(r) * th, a, off, t), [],
                              "weak mirror")
    # plane mirrors without thickness
    for a, off in core.product(APERTURES, OFFS):
        data = {"mirror": "plane", "thickness": 0, "aperture": a, "off_axis": off}
        if ctx.selected(data):
            with ctx.case(data):
                real = pc.plane_mirror(0, aperture=a, off_axis=off)
                rays = bundle(lambda y, z: 0 * y, 0, a, off, t)
                flat(ctx, real, a, off, rays)
    if ctx.selected({"defaults": 1}):
        with ctx.case({"defaults": 1}):
            for real, tree, face, back in (
                    (pc.plane_mirror(0.3), lens.plane(0.3, 1, (0, 0), "mirror"), lambda y, z: 0 * y, -0.3),
                    (pc.parabolic_mirror(2, 0.3), lens.parabolic(2, 0.3, 1, (0, 0), "mirror"), lambda y, z: (y * y + z * z) / 8 - 2, -2.3),
                    (pc.spherical_mirror(4, 0.3), lens.spherical(4, 0.3, 1, (0, 0), "mirror"),
                     lambda y, z: 4 - np.sqrt(16 - y * y - z * z), -0.3)):
                check(ctx, real, tree, bundle(face, back, 1, (0, 0), t), [], "mirror with default arguments")


def plane_case(ctx, real, v, th, a, off, m, rays, pose):
    """a spherical mirror of infinite radius: a plate whose front face (only) has the given material"""
    from mc.oracle import Leaf
    s = np.sign(v)
    big = 40.0
    body = lens.outline(a, *sorted((-s * th, s * 2.0)), "absorb", off)
    cut = Leaf("cuboid", [[min(0, s * 5.0), -big, -big], [max(0, s * 5.0), big, big]], [], None)
    cut.material = "mirror" if m is scene.material("mirror") else "n1.5"
    check(ctx, real, ("difference", body, cut), rays, pose, "spherical mirror of infinite radius")


def flat(ctx, real, a, off, rays):
    """a sheet at x = 0: every line through it hits twice at the same place, at a face with the mirror material"""
    hits, ids = real.intersect(rays)
    hits = np.where(np.isfinite(hits), hits, np.inf)
    dx = rays[1, 0]
    along = np.abs(dx) < 1e-9
    t = -rays[0, 0] / np.where(along, 1, dx)
    y, z = (rays[0, k] + t * rays[1, k] - off[k - 1] for k in (1, 2))
    hy, hz = lens.half(a)
    inside = np.maximum(np.abs(y) / hy, np.abs(z) / hz) if np.ndim(a) and a[0] > 0 else np.hypot(y / hy, z / hz)
    clear = ~along & (np.abs(inside - 1) > 1e-6)
    ctx.ambiguous += int((~clear).sum())
    n = np.isfinite(hits).sum(0)
    bad = clear & (n != np.where(inside < 1, 2, 0))
    ctx.evaluations += len(n)
    ctx.nontrivial += int((clear & (inside < 1)).sum())
    if bad.any():
        ctx.fail("mirror of no thickness: wrong number of hits", rays=scene._rays(rays, bad), got=int(n[bad][0]), n_bad=int(bad.sum()))
        return
    lut = dict(real.surface_ids)
    for i in np.nonzero(clear & (inside < 1))[0]:
        ctx.expect(bool(np.all(np.abs(hits[:2, i] - t[i]) < 1e-7 * (1 + abs(t[i])))), "mirror of no thickness: wrong distance")
        s = lut[int(ids[0, i])]
        nrm = s.get_world_normals((rays[0, :, i] + hits[0, i] * rays[1, :, i]).reshape(4, 1))[:3, 0]
        ctx.expect(s.material is scene.material("mirror") and abs(abs(nrm[0]) - 1) < 1e-9,
                   "mirror of no thickness: wrong material or normal", normal=nrm)
