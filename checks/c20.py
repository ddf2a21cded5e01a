"""C20: lenses as sequential optics: exact refraction at the two faces, and the paraxial focal lengths."""
import numpy as np
import pyrayt
import pyrayt.components as pc
from pyrayt import utils
from mc import core, lens, oracle, scene, trace, rays as R
from mc.oracle import LD
from checks import c19

LEVEL = "model_checking"
RULE = ("state = lens (factory, both radii of any sign or infinite, thickness, aperture, material, pose) x bundle of rays of "
        "several wavelengths from either side; rays that pass both faces inside the aperture must follow exact sequential "
        "refraction row by row, and paraxial rays must meet the axis at the back focal distance; the lensmaker's equation is "
        "compared with the paraxial system matrix for every combination; non-trivial = a ray that passes both faces")
ASSUMPTIONS = ["rays within 1e-3 of the rim of the aperture are left to C01 and C19", "the lensmaker's equation of an afocal "
               "lens (both faces flat) is not compared"]
INF = float("inf")
WL = [0.4, 0.486, 0.55, 0.633, 0.75, 1.1]


def to_face(o, d, r, x0):
    """distance to the vertex side of a spherical or flat face"""
    if np.isinf(r):
        return (x0 - o[0]) / d[0]
    c = np.array([LD(x0) + LD(r), LD(0), LD(0)])[:, None]
    b = ((o - c) * d).sum(0)
    q = ((o - c) ** 2).sum(0) - LD(r) * LD(r)
    disc = b * b - q
    root = np.sqrt(np.where(disc > 0, disc, np.nan))
    # the branch of the sphere that holds the vertex
    ta, tb = -b - root, -b + root
    xa = (o + ta * d)[0]
    near = (xa - c[0]) * -np.sign(r) > 0
    return np.where(near, ta, tb)


def normal(p, r, x0):
    if np.isinf(r):
        n = np.zeros_like(p)
        n[0] = 1
        return n
    c = np.array([LD(x0) + LD(r), LD(0), LD(0)])[:, None]
    n = (p - c) / LD(abs(r))
    return n


def snell(d, n, n1, n2):
    c = (d * n).sum(0)
    n = np.where(c > 0, n, -n)
    c = np.abs(c)
    r = n1 / n2
    rad = 1 - r * r * (1 - c * c)
    return r * d + (np.sqrt(np.where(rad > 0, rad, np.nan)) - r * c) * n


def sequential(o, d, idx, r1, r2, t, inside, back):
    """[(points, directions after)] for the two faces; nan where the ray does not pass as a lens ray"""
    faces = [(r1, -t / 2), (r2, t / 2)]
    if back:
        faces = faces[::-1]
    o, d = o.astype(LD), d.astype(LD)
    good = np.ones(o.shape[1], dtype=bool)
    out = []
    for k, (r, x0) in enumerate(faces):
        s = to_face(o, d, r, x0)
        p = o + s * d
        good &= (s > 0) & inside(p[1], p[2]) & np.isfinite(s)
        nd = snell(d, normal(p, r, x0), LD(1) if k == 0 else idx, idx if k == 0 else LD(1))
        good &= np.isfinite(nd).all(axis=0)
        out.append((p, nd))
        o, d = p, nd
    return out, good


def inside_of(a):
    hy, hz = lens.half(a)
    if np.ndim(a) and a[0] > 0:
        return lambda y, z: (np.abs(y) < hy * 0.999) & (np.abs(z) < hz * 0.999)
    return lambda y, z: np.hypot(y / hy, z / hz) < 0.999


def bundle(a, t, back, dense):
    hy, hz = lens.half(a)
    s = -1 if back else 1
    g = [-0.95, -0.7, -0.36, 0.02, 0.28, 0.61, 0.9] if dense else [-0.93, -0.41, 0.03, 0.57, 0.88]
    pts = np.array([(0, y * hy, z * hz) for y in g for z in g])
    out = []
    for d in ((s, 0, 0), (s, 0.1, -0.05), (s, -0.3, 0.2)):
        d = R.unit(d)
        out.append(R.bundle(pts - 6 * d, np.tile(d, (len(pts), 1))))
    for src in ((-s * 2.5, 0.05, 0.02), (-s * 9.0, 0, 0), (-s * 3.0, 0.8, -0.6)):
        out.append(R.aim([src], pts))
    b = R.join(*out)
    return b


def check_exact(ctx, real, r1, r2, t, a, mat, back, pose, dense):
    rays = bundle(a, t, back, dense)
    n = rays.shape[2]
    wl = np.array(WL)[np.arange(n) % len(WL)]
    idx = trace.glass_index(mat, wl)
    path, good = sequential(rays[0, :3], rays[1, :3], idx, r1, r2, t, inside_of(a), back)
    # the ray must be between the faces on its way: inside the lens body
    tree = lens.lens(r1, r2, t, a, mat)
    mid = (path[0][0] + path[1][0]) / 2
    adv = ((path[1][0] - path[0][0]) * path[0][1]).sum(0)
    L = oracle.Lines(tree, np.where(np.isfinite(rays), rays, 0))
    pts = np.where(np.isfinite(mid.astype(float)), mid.astype(float), 99.0)
    member = {id(l): l.depth(pts) > 0 for l in oracle.leaves(tree)}
    good &= oracle.evaluate(tree, member) & (adv > 1e-4)
    first = np.where(L.finite & (L.change > 0) & (L.times > 1e-9), L.times, np.inf).min(axis=0)
    good &= np.abs(first - ((path[0][0] - rays[0, :3]) * rays[1, :3]).sum(0)) < 1e-6     # nothing of the lens in front
    good &= ~L.risky(rays)
    # and nothing after it: the rest of the body
    after = np.zeros((2, 4, n))
    after[0, :3] = np.where(good, (path[1][0] + 1e-5 * path[1][1]).astype(float), 50)
    after[1, :3] = np.where(good, path[1][1].astype(float), 1)
    after[0, 3] = 1
    L2 = oracle.Lines(tree, after)
    good &= ~((L2.finite & (L2.change > 0) & (L2.times > -1e-5)).any(axis=0)) & ~L2.risky(after)
    m = oracle.Pose()
    for op in pose:
        oracle.apply_op(real, op)
        m.apply(op)
    M = m.m.astype(float)
    world = np.stack([M @ rays[k] for k in (0, 1)])
    src = trace.Fixed(world[0, :3].T, world[1, :3].T, wavelength=wl)
    screen = scene.build(scene.leaf("sphere", [80], [], "absorb"))
    df = pyrayt.RayTracer(src, [real, screen.real], rays_per_source=n, generation_limit=4).trace()
    D = df[list(trace.COLS)].to_numpy(dtype=float)
    row = {(int(r[4]), int(r[0])): r for r in D}
    for i in np.nonzero(good)[0]:
        rows = [row.get((i, g)) for g in range(3)]
        if not ctx.expect(all(r is not None for r in rows), "lens: a ray ends before it has passed the lens", ray=int(i)):
            return
        p = [M @ np.append(path[k][0][:, i].astype(float), 1) for k in (0, 1)]
        dirs = [M[:3, :3] @ path[k][1][:, i].astype(float) for k in (0, 1)]
        ok = (np.abs(rows[0][9:12] - p[0][:3]).max() < 1e-8 and np.abs(rows[1][9:12] - p[1][:3]).max() < 3e-6
              and np.abs(rows[1][12:15] - dirs[0]).max() < 1e-7 and np.abs(rows[2][12:15] - dirs[1]).max() < 1e-5
              and abs(rows[1][3] - float(idx[i])) < 1e-9 and abs(rows[2][3] - 1) < 1e-12 and (i, 3) not in row
              and all(r[2] == wl[i] for r in rows))
        if not ctx.expect(ok, "lens: a ray does not follow sequential refraction at the two faces", ray=int(i), wavelength=wl[i],
                          start=world[0, :3, i], direction=world[1, :3, i], want_points=p, want_directions=dirs,
                          got=[r[9:15].tolist() for r in rows]):
            return
        # exact, up to the offset of 1e-6 at each face: on the far side, the same line
        off = rows[1][9:12] - p[1][:3]
        if not ctx.expect(np.abs(off).max() < 1e-8, "lens: the second face is met at the wrong point", off=off):
            return
    ctx.nontrivial += int(good.sum())
    ctx.count("exact", int(good.sum()))
    ctx.count("not lens rays", int((~good).sum()))


def matrix(r1, r2, n, t):
    """paraxial system matrix of the lens, on (height, angle): (A, B, C, D)"""
    n, t = LD(float(n)), LD(t)
    f1 = np.array([[LD(1), LD(0)], [-(n - 1) / n / LD(r1) if np.isfinite(r1) else LD(0), 1 / n]])
    f2 = np.array([[LD(1), LD(0)], [(n - 1) / LD(r2) if np.isfinite(r2) else LD(0), n]])
    g = np.array([[LD(1), t], [LD(0), LD(1)]])
    # refraction n1 -> n2 at radius R: angle' = (n1 angle + (n1 - n2) h / R) / n2
    mul = lambda a, b: np.array([[sum(a[i, k] * b[k, j] for k in (0, 1)) for j in (0, 1)] for i in (0, 1)])
    return mul(f2, mul(g, f1))


def check_paraxial(ctx, make, r1, r2, t, a, mat):
    for wl in (0.45, 0.633):
        n = float(trace.glass_index(mat, wl))
        m = matrix(r1, r2, n, t)
        if abs(m[1, 0]) < 1e-9:
            continue
        efl, bfd = float(-1 / m[1, 0]), float(-m[0, 0] / m[1, 0])
        got = utils.lensmakers_equation(r1, r2, n, t)
        ctx.expect(abs(got - efl) < 1e-9 * abs(efl), "lensmaker's equation differs from the paraxial result", r1=r1, r2=r2,
                   index=n, thickness=t, got=float(got), want=efl)
        hmax = min([abs(r) for r in (r1, r2) if np.isfinite(r)] + [abs(efl)]) * 1e-3
        hmax = min(hmax, min(lens.half(a)) * 0.3)
        h = hmax * np.array([1.0, 0.5, -0.7])
        o = np.column_stack((np.full(6, -7.0), np.append(h, 0.3 * h), np.append(-0.4 * h, h)))
        src = trace.Fixed(o, np.tile((1.0, 0, 0), (6, 1)), wavelength=wl)
        screen = scene.build(scene.leaf("sphere", [max(80, 20 * abs(efl))], [], "absorb"))
        df = pyrayt.RayTracer(src, [make(), screen.real], rays_per_source=6).trace()
        D = df[list(trace.COLS)].to_numpy(dtype=float)
        for i in range(6):
            r = D[(D[:, 4] == i) & (D[:, 0] == 2)]
            if not ctx.expect(len(r) == 1, "paraxial ray does not pass the lens", ray=i):
                return
            r = r[0]
            rho2 = o[i, 1] ** 2 + o[i, 2] ** 2
            # where the ray meets the axis, by its radial coordinate
            y, z, dx, dy, dz = r[7], r[8], r[12], r[13], r[14]
            s = -(y * dy + z * dz) / (dy * dy + dz * dz)
            x = r[6] + s * dx
            f = (np.sqrt(rho2) / np.hypot(dy, dz)) * dx * (1 if s > 0 else -1)
            # aberrations grow with h^2
            tol = 2e-4 * (1 + abs(bfd) + abs(efl)) * max(1, abs(efl) / min([abs(q) for q in (r1, r2) if np.isfinite(q)] + [abs(efl)]))
            ctx.expect(abs(x - (t / 2 + bfd)) < tol and abs(f - efl) < tol, "paraxial rays do not focus at the focal distance",
                       r1=r1, r2=r2, index=n, thickness=t, got=[float(x - t / 2), float(f)], want=[bfd, efl])
            ctx.expect(max(abs(y + s * dy), abs(z + s * dz)) < 1e-9 + 1e-5 * hmax, "a meridional ray misses the axis",
                       miss=[y + s * dy, z + s * dz])
            ctx.count("focus")


def run(ctx):
    t = ctx.thorough
    count = 0
    poses = [[], [["rz", 35], ["rx", 20], ["move", 2, -1, 0.5]]]
    for r1, r2, th, a in core.product(c19.RADII, c19.RADII, c19.THICK, [1, (1.0, 0.4), (-0.6, -1.1), 1.7]):
        if not c19.documented(r1, r2, th, a):
            continue
        count += 1
        mats = ["BK7", "SF5", "n1.5", "n2.4", "n0.8"]
        for mat in mats if t else [mats[count % 5]]:
            for back in (False, True):
                for k, pose in enumerate(poses):
                    if not t and (count + k + back) % 2:
                        continue
                    data = {"r1": r1, "r2": r2, "thickness": th, "aperture": a, "material": mat, "backwards": back, "pose": k}
                    if ctx.selected(data):
                        with ctx.case(data, steps=4):
                            real = pc.thick_lens(r1, r2, th, aperture=a, material=scene.material(mat))
                            check_exact(ctx, real, r1, r2, th, a, mat, back, pose, t)
            data = {"focus": [r1, r2, th], "aperture": a, "material": mat}
            if a in (1, (1.0, 0.4)) and ctx.selected(data):
                with ctx.case(data, steps=8):
                    m = scene.material(mat)
                    check_paraxial(ctx, lambda: pc.thick_lens(r1, r2, th, aperture=a, material=m), r1, r2, th, a, mat)
                    if r1 > 0 and (r2 < 0 or np.isinf(r2)):
                        check_paraxial(ctx, lambda: pc.biconvex_lens(r1, abs(r2), th, aperture=a, material=m), r1, -abs(r2), th, a, mat)
                    if np.isinf(r1) and r2 < 0:
                        check_paraxial(ctx, lambda: pc.plano_convex_lens(abs(r2), th, aperture=a, material=m), r1, r2, th, a, mat)
    # the equation itself, on a grid
    radii = [0.5, 1, 2, 7.5, 50, 1e3, INF] + [-0.5, -1, -3, -20, -1e4, -INF]
    for r1, r2 in core.product(radii, radii):
        data = {"equation": [r1, r2]}
        if not ctx.selected(data):
            continue
        with ctx.case(data):
            for n, th in core.product((1.0001, 1.3, 1.5, 2, 4, 0.7), (0, 1e-3, 0.1, 0.5, 3)):
                c = matrix(r1, r2, n, th)[1, 0]
                scale = abs((n - 1) * (1 / abs(r1) + 1 / abs(r2) + abs(n - 1) * th / n / abs(r1) / abs(r2)))
                if abs(c) < 1e-9 * scale or scale == 0:
                    ctx.ambiguous += 1
                    continue
                got = utils.lensmakers_equation(r1, r2, n, th)
                ctx.expect(abs(got * float(-c) - 1) < 1e-12 * scale / abs(float(c)) + 1e-13, "lensmaker's equation differs from "
                           "the paraxial result", r1=r1, r2=r2, index=n, thickness=th, got=float(got), want=float(-1 / c))
