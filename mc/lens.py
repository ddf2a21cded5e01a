"""The documented shapes of lenses, mirrors, baffles and prisms as reference trees (world space, optical axis along x)."""
import numpy as np

from . import oracle, scene
from .oracle import LD, Leaf


def sphere(r, x, m):
    return Leaf("sphere", [abs(r)], [("move", x, 0, 0)], m)


def outline(a, x0, x1, m, off=(0, 0)):
    """aperture body: circle of a diameter, rectangle (y, z), ellipse (-y, -z), between two planes"""
    if np.ndim(a) == 0:
        return Leaf("cylinder", [a / 2, x0, x1], [("ry", 90), ("move", 0, off[0], off[1])], m)
    if a[0] > 0:
        return Leaf("cuboid", [[x0, -a[0] / 2, -a[1] / 2], [x1, a[0] / 2, a[1] / 2]], [("move", 0, off[0], off[1])], m)
    return Leaf("cylinder", [1, x0, x1], [("ry", 90), ("scale", 1, -a[0] / 2, -a[1] / 2), ("move", 0, off[0], off[1])], m)


def reach(a, off=(0, 0)):
    """largest distance from the axis"""
    if np.ndim(a) == 0:
        return np.hypot(*off) + a / 2
    if a[0] > 0:
        return np.hypot(abs(off[0]) + a[0] / 2, abs(off[1]) + a[1] / 2)
    t = np.linspace(0, 2 * np.pi, 721)
    return np.hypot(off[0] + a[0] / 2 * np.cos(t), off[1] + a[1] / 2 * np.sin(t)).max() * 1.00001


def half(a):
    """half the extents along y and z"""
    return (a / 2, a / 2) if np.ndim(a) == 0 else (abs(a[0]) / 2, abs(a[1]) / 2)


def lens(r1, r2, t, a, m):
    """signed radii: r1 > 0 and r2 < 0 are convex"""
    x0 = -t / 2 if np.isinf(r1) else (-t / 2 - 0.37 if r1 > 0 else -t / 2 + r1)
    x1 = t / 2 if np.isinf(r2) else (t / 2 + 0.29 if r2 < 0 else t / 2 + r2)
    tree = outline(a, x0, x1, m)
    if np.isfinite(r1):
        tree = ("intersect" if r1 > 0 else "difference", tree, sphere(r1, -t / 2 + r1, m))
    if np.isfinite(r2):
        tree = ("intersect" if r2 < 0 else "difference", tree, sphere(r2, t / 2 + r2, m))
    return tree


def faces(r1, r2, t):
    """x(rho) of the two faces"""
    f1 = lambda p: -t / 2 + (0 * p if np.isinf(r1) else np.sign(r1) * (abs(r1) - np.sqrt(r1 * r1 - p * p)))
    f2 = lambda p: t / 2 + (0 * p if np.isinf(r2) else np.sign(r2) * (abs(r2) - np.sqrt(r2 * r2 - p * p)))
    return f1, f2


def parabolic(f, t, a, off, m):
    top = reach(a, off) ** 2 / (4 * f) + 0.7
    body = outline(a, -f - t, top - f, "absorb", off)
    return "difference", body, Leaf("paraboloid", [f, top + 0.9], [("ry", 90), ("move", -f, 0, 0)], m)


def spherical(r, t, a, off, m):
    if np.isinf(r):
        return outline(a, *sorted((0.0, -np.sign(r) * t)), m, off)
    body = outline(a, -t, r, "absorb", off) if r > 0 else outline(a, r, t, "absorb", off)
    return "difference", body, sphere(r, r, m)


def plane(t, a, off, m):
    return outline(a, -t, 0, m, off)


def sheet(a):
    if np.ndim(a) and a[0] > 0:
        # object x, y of the plane become z and y
        return Leaf("plane", [a[1], a[0]], [("ry", 90)], "absorb")
    big = 4 * max(half(a))
    return "intersect", Leaf("plane", [big, big], [("ry", 90)], "absorb"), outline(a, -1, 1.1, "absorb")


def stop(a, opening):
    return "difference", sheet(a), outline(opening, -1.2, 0.9, "absorb")


def prism(s, w, m):
    h = float(np.sqrt(3.0)) / 2 * s
    big = 10 * s + 10 * w
    base = Leaf("cuboid", [[-s, -w / 2, -h / 2], [s, w / 2, h]], [], m)
    left = Leaf("cuboid", [[0, -big, -big], [big, big, big]], [("ry", 30), ("move", -s / 2, 0, -h / 2)], m)
    right = Leaf("cuboid", [[-1.3 * big, -1.3 * big, -1.4 * big], [0, 1.2 * big, 1.3 * big]], [("ry", -30), ("move", s / 2, 0, -h / 2)], m)
    return "intersect", ("intersect", base, left), right


def spellings(a):
    """other ways of giving the same number or the same sizes"""
    if not np.ndim(a):
        out = {"double": np.float64(a), "single": np.float32(a), "long": np.longdouble(a)}
        if a == int(a):
            out.update(whole=int(a), int64=np.int64(a), float=float(a))
    else:
        out = {"tuple": tuple(a), "list": list(a), "array": np.array(a, float), "column": np.array([a, a], float).T[:, 0],
               "singles": tuple(np.float32(v) for v in a), "mixed": (a[0], np.float64(a[1]))}
        if all(v == int(v) for v in a):
            out.update(wholes=tuple(int(v) for v in a), int64s=np.array(a, np.int64), ints=[np.int32(v) for v in a])
    return [(k, v) for k, v in out.items() if np.array_equal(np.asarray(v, float), np.asarray(a, float))]


def compare(ctx, real, tree, rays, what, materials=True, tol=1e-7, tied_ok=True):
    """hits, normals and materials of a real component against a reference tree whose leaves have no real counterpart"""
    hits, ids = real.intersect(rays)
    L = scene.compare_hits(ctx, hits, ids, tree, rays, None, what, check_owner=False, tol=tol)
    lut = dict(real.surface_ids)
    sign = scene.orientation(tree)
    exp = L.expected()
    order = np.argsort(exp, axis=0, kind="stable")
    own = np.take_along_axis(L.owner, order, 0)
    clean = ~L.risky(rays) & ~(L.tied & L.finite).any(axis=0)
    hits = np.where(np.isfinite(hits), hits, np.inf)
    for r in range(min(hits.shape[0], exp.shape[0])):
        live = clean & np.isfinite(hits[r]) & np.isfinite(np.take_along_axis(exp, order, 0)[r])
        unknown = live & ~np.isin(ids[r], list(lut))
        if not ctx.expect(not unknown.any(), f"{what}: a hit is credited to a surface the component does not list"):
            return L
        for k, leaf in enumerate(L.leaves):
            for sid in np.unique(ids[r][live & (own[r] == k)]):
                m = live & (own[r] == k) & (ids[r] == sid)
                pts = rays[0][:, m] + hits[r][m] * rays[1][:, m]
                want, ok = leaf.normal(pts, tol=3e-5)
                want = np.asarray(want, dtype=float) * sign[id(leaf)]
                got = lut[sid].get_world_normals(pts)[:3]
                err = np.abs(got - want).max(axis=0)
                if not leaf.solid:     # a sheet has no outside
                    err = np.minimum(err, np.abs(got + want).max(axis=0))
                bad = ok & ~(err < 3e-6)
                ctx.evaluations += int(m.sum())
                if bad.any():
                    ctx.fail(f"{what}: wrong normal", point=pts[:3, bad][:, 0], got=got[:, bad][:, 0], want=want[:, bad][:, 0],
                             face=leaf.kind)
                    return L
                if materials:
                    got_m = lut[sid].material
                    ctx.expect(got_m is scene.material(leaf.material), f"{what}: wrong material on a face", face=leaf.kind,
                               got=type(got_m).__name__, want=leaf.material)
    return L


HAIRS = (1e-2, 1e-4, 3e-6, 1e-7, 3e-9)


def rims(ctx, real, a, what, off=(0, 0), hole=False, far=5.0, size=1.0, hairs=HAIRS):
    """Lines along the axis a hair inside and a hair outside of an outline, which tangents and edges cannot excuse: they are decided
    by the size that was given.  hole: the outline is that of an opening."""
    hy, hz = (h * size for h in half(a))
    out, inside = [], []
    for e in hairs:
        for f in (1 - e, 1 + e):
            if np.ndim(a) and a[0] > 0:
                yz = [(f * s, g) for s in (-1, 1) for g in (-0.93, -0.4, 0.02, 0.71)] + [(g, f * s) for s in (-1, 1) for g in (-0.9, -0.3, 0.04, 0.66)]
                yz += [(f * s, f * u) for s in (-1, 1) for u in (-1, 1)]
            else:
                t = np.linspace(0, 2 * np.pi, 14)[:-1] + 0.05
                yz = [(f * np.cos(u), f * np.sin(u)) for u in [*t, 0, np.pi / 2, np.pi, -np.pi / 2]]
            out += yz
            inside += [f < 1] * len(yz)
    yz, inside = np.array(out), np.array(inside)
    for sx in (1, -1):
        rays = np.zeros((2, 4, len(yz)))
        rays[0, 0], rays[0, 1], rays[0, 2], rays[0, 3] = -sx * far * size, yz[:, 0] * hy + off[0] * size, yz[:, 1] * hz + off[1] * size, 1
        rays[1, 0] = sx
        hits, _ = real.intersect(rays)
        met = np.isfinite(np.atleast_2d(hits)).any(axis=0)
        bad = met != (inside != hole)
        ctx.evaluations += len(yz)
        ctx.nontrivial += len(yz)
        ctx.count("a hair from the rim", len(yz))
        if bad.any():
            i = int(np.nonzero(bad)[0][0])
            ctx.fail(f"{what}: a line a hair {'inside' if inside[i] else 'outside'} of the outline {'meets' if met[i] else 'misses'} it", n_bad=int(bad.sum()),
                     outline=a, off_axis=off, times=size, y=rays[0, 1, i], z=rays[0, 2, i], relative=yz[i])
            return
