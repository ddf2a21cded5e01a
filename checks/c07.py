"""C07: Snell's law and total internal reflection, for the vector function and for glass materials on surfaces."""
import itertools
import numpy as np
import pyrayt
import tinygfx.g3d as cg
from pyrayt import materials as matl
from mc import core, trace, oracle, sizes
from mc.oracle import LD

LEVEL = "model_checking"
RULE = ("state = (normal, starting index, index of the body, surrounding index, batch form); each is probed with all incidence "
        "angles (normal to grazing, on both sides of the critical angle, from both sides of the surface), azimuths and lengths, "
        "and compared with Snell's law in extended precision; glass materials are called on real surfaces with mixed batches; "
        "non-trivial = a direction that is not along the normal")
ASSUMPTIONS = ["incidence within 3e-13 of the critical angle (in the squared sine) and exactly grazing incidence are left open"]

ANGLES = [0, 1e-6, 1e-3, 1, 5, 15, 27.3, 30, 41.5, 45, 48.7, 55, 60, 75, 85, 89, 89.9, 89.999] + [
    90 - np.degrees(x) for x in (3e-6, 3e-7, 3e-8)]
NORMALS = [(0, 0, 1), (1, 0, 0), (0, -1, 0), (1, 1, 1), (-1, 2, 0.5), (0.3, -0.1, -2), (1e-4, 1, 0), (-3, -4, 0)]
INDICES = [1.0, 1.33, 1.5, 1.9, 2.4, 0.8]


def directions(normal, n1, n2, dense):
    """directions around a normal: both sides, angles, azimuths; plus angles close to the critical one"""
    n = np.array(normal, dtype=float)
    n /= np.linalg.norm(n)
    u = np.cross(n, [0.36, 0.48, 0.8] if abs(n @ [0.36, 0.48, 0.8]) < 0.95 else [1, 0, 0])
    u /= np.linalg.norm(u)
    v = np.cross(n, u)
    angles = list(ANGLES) + (list(np.linspace(2, 88, 29)) if dense else [])
    for r in (n2 / n1, 1 / n1):
        if r < 1:
            c = np.degrees(np.arcsin(r))
            angles += [c - 1, c + 1] + [c + s * g for g in (1e-3, 1e-6, 1e-8, 1e-9, 1e-10, 4e-11) for s in (1, -1)]
    az = np.radians([0, 50, 130, 180, 260, 333] if dense else [0, 100, 230])
    out = []
    for a, s in itertools.product(np.radians([x for x in angles if 0 <= x < 90]), (1, -1)):
        for p in az:
            out.append(s * np.cos(a) * n + np.sin(a) * (np.cos(p) * u + np.sin(p) * v))
    return np.array(out), n


def reference(d, n, n1, n2, n_global):
    """(direction, index, slack, open) in extended precision; n normal(s) 3xm"""
    d = d.astype(LD)
    d = d / np.sqrt((d ** 2).sum(0))
    n = n.astype(LD)
    n = n / np.sqrt((n ** 2).sum(0))
    c = (d * n).sum(0)
    n2 = np.where(c > 0, LD(n_global), np.asarray(n2, dtype=LD))
    nn = np.where(c > 0, n, -n)
    r = np.asarray(n1, dtype=LD) / n2
    c = np.abs(c)
    # sine from the tangential part: exact for small and large angles
    tang = d - c * nn
    s2 = r * r * (tang ** 2).sum(0)
    rad = 1 - s2
    tir = rad <= 0
    new = np.where(tir, d - 2 * c * nn, r * tang + np.sqrt(np.maximum(rad, 0)) * nn)
    return new, np.where(tir, np.asarray(n1, dtype=LD), n2), (1 + r * r) / np.sqrt(np.maximum(np.abs(rad), 1e-12)), (
        np.abs(rad) < 3e-13) | (c < 1e-9), tir


def compare(ctx, got, want, what, d, n):
    g, gi = np.asarray(got[0], dtype=float), np.asarray(got[1], dtype=float)
    new, idx, slack, openn, tir = want
    m = new.shape[1]
    if not ctx.expect(g.shape == (4, m) and gi.shape in ((m,), ()), f"{what}: results have shapes {g.shape}, {gi.shape}"):
        return
    gi = np.broadcast_to(gi, (m,))
    ctx.evaluations += m
    ctx.ambiguous += int(openn.sum())
    ctx.nontrivial += int((~openn).sum())
    ctx.count("totally reflected", int((tir & ~openn).sum()))
    ctx.count("refracted", int((~tir & ~openn).sum()))
    err = np.abs(g[:3] - new).max(0)
    bad = ~openn & ~((err < 1e-13 * slack + 1e-12) & (g[3] == 0))
    if bad.any():
        i = int(np.nonzero(bad)[0][0])
        ctx.fail(f"{what}: wrong direction after {'total reflection' if tir[i] else 'refraction'}", direction=d[:, i].tolist(),
                 normal=n[:, i].tolist(), got=g[:, i].tolist(), want=[float(v) for v in new[:, i]], n_bad=int(bad.sum()))
        return
    bad = ~openn & ~(np.abs(gi - idx.astype(float)) < 1e-12)
    if bad.any():
        i = int(np.nonzero(bad)[0][0])
        ctx.fail(f"{what}: wrong index after {'total reflection' if tir[i] else 'refraction'}", direction=d[:, i].tolist(),
                 normal=n[:, i].tolist(), got=float(gi[i]), want=float(idx[i]), n_bad=int(bad.sum()))
        return
    bad = ~openn & ~(np.abs((g[:3] ** 2).sum(0) - 1) < 1e-12)
    ctx.expect(not bad.any(), f"{what}: results are not unit vectors")


def four(a):
    return np.vstack((a, np.zeros((1, a.shape[1]))))


def run(ctx):
    normals = NORMALS if not ctx.thorough else NORMALS + [(0, 0, -1), (2, -1, 3), (-1, -1e-3, 1e-3), (5, 0, 1)]
    idx = INDICES if not ctx.thorough else INDICES + [1.0003, 3.4, 0.5]
    for n0, n1, n2, ng in itertools.product(normals, idx, idx, (1, 1.33)):
        data = {"normal": n0, "n1": n1, "n2": n2, "global": ng}
        if not ctx.selected(data):
            continue
        with ctx.case(data):
            d, n = directions(n0, n1, n2 if ng == 1 else ng, ctx.thorough)
            d = (d * np.array([1, 1, 0.3, 7.0])[np.arange(len(d)) % 4][:, None]).T
            nn = np.tile(n[:, None], (1, d.shape[1]))
            m = d.shape[1]
            kw = {} if ng == 1 else {"n_global": ng}
            want = reference(d, nn, np.full(m, n1), n2, ng)
            a, b, i1, i2 = four(d), four(nn), np.full(m, n1), np.full(m, n2)
            keep = [x.copy() for x in (a, b, i1, i2)]
            compare(ctx, cg.refract(a, b, i1, i2, **kw), want, "batch", d, nn)
            ctx.expect(all(np.array_equal(x, y) for x, y in zip(keep, (a, b, i1, i2))), "refract changed an argument")
            compare(ctx, cg.refract(a, b, n1, n2, **kw), want, "scalar indices", d, nn)
            for i in range(0, m, 1 if ctx.thorough else 17):
                sl = slice(i, i + 1)
                w = [x[..., sl] for x in want]
                compare(ctx, cg.refract(a[:, sl].copy(), b[:, sl].copy(), i1[sl].copy(), i2[sl].copy(), **kw), w, "single ray", d[:, sl],
                        nn[:, sl])
    # everything different in one batch, in several orders
    cols = []
    for n0, n1, n2 in itertools.product(normals, idx, idx):
        d, n = directions(n0, n1, n2, False)
        k = slice(None, None, 5)
        cols.append((d[k].T, np.tile(n[:, None], (1, len(d[k]))), np.full(len(d[k]), n1), np.full(len(d[k]), n2)))
    D, Nn, I1, I2 = (np.concatenate([c[j] for c in cols], axis=-1) for j in range(4))
    for stride in (1, 7, 11, 13, 1001):
        data = {"mixed batch": stride}
        if ctx.selected(data):
            with ctx.case(data):
                if np.gcd(stride, D.shape[1]) != 1:
                    stride += 1
                p = (np.arange(D.shape[1]) * stride) % D.shape[1]
                compare(ctx, cg.refract(four(D[:, p]), four(Nn[:, p]), I1[p].copy(), I2[p].copy()),
                        reference(D[:, p], Nn[:, p], I1[p], I2[p], 1), "mixed batch", D[:, p], Nn[:, p])
    # one index for all rays on one side, hardly different ones on the other
    for n0, n, step, count in itertools.product(normals[:5], idx[:5], (0, 1e-9, 1e-7, 3e-6, 4e-5, 1e-3), (2, 3, 11, 400)):
        data = {"hardly different": step, "normal": n0, "n": n, "rays": count}
        if ctx.selected(data):
            with ctx.case(data, steps=3):
                k = np.arange(count)
                d, nn = directions(n0, n, 1.4, False)
                d = d[(k * 17 + 3) % len(d)].T
                nn = np.tile(nn[:, None], (1, count))
                near = 1.4 + step * (k - count // 2) / (count // 2)
                flat = np.full(count, n)
                for a, b in ((near, n), (n, near), (near, flat), (flat, near), (near, near[::-1].copy())):
                    keep = [np.array(x) for x in (a, b)]
                    compare(ctx, cg.refract(four(d), four(nn), a, b), reference(d, nn, np.broadcast_to(a, (count,)), b, 1), "hardly different indices", d, nn)
                    ctx.expect(all(np.array_equal(x, y) for x, y in zip(keep, (a, b))), "refract changed an argument")
    # batches of every size
    pick = (np.arange(37) * 101) % D.shape[1]
    few = np.concatenate([four(D[:, pick]), four(Nn[:, pick]), [I1[pick]], [I2[pick]]])
    for size in sizes.sizes(19 if ctx.thorough else 17):
        data = {"batch of": size}
        if ctx.selected(data):
            with ctx.case(data):
                sizes.repeated(ctx, "refract", lambda a: cg.refract(a[:4], a[4:8], a[8], a[9]), few, size, 1e-12, 1e-12)
                if size < 20000:
                    ball = cg.Sphere(2, material=matl.glass["SF5"]).move_x(0.3)
                    sizes.repeated(ctx, "glass", lambda a: through(ball, a), on_ball(few), size, 1e-12, 1e-12)
    materials(ctx)
    bundled(ctx)


def on_ball(few):
    p = few[4:7] / np.linalg.norm(few[4:7], axis=0) * 2
    p[0] += 0.3
    return np.concatenate([p, few[:3] / np.linalg.norm(few[:3], axis=0), [0.4 + 0.01 * np.arange(few.shape[1])], [few[8]]])


def through(body, a):
    rs = pyrayt.RaySet(a.shape[1])
    rs.rays[0, :3], rs.rays[1, :3], rs.wavelength, rs.index = a[:3], a[3:6], a[6], a[7]
    out = body.material.trace(body, rs)
    return np.array(out.rays[0]), np.array(out.rays[1]), np.array(out.index), np.array(out.wavelength)


def bundled(ctx):
    """rays that arrive close together"""
    from checks import scenes
    from mc import scene
    for name, spec, pts, nrm in scenes.bundles(ctx.thorough):
        data = {"bundle": name}
        if not ctx.selected(data):
            continue
        with ctx.case(data):
            node = scene.build(dict(spec, m="BK7"))
            m = pts.shape[1]
            d = np.array([[-0.6, 0.48, 0.64], [0.8, 0, -0.6], [0, 0.28, 0.96]])[np.arange(m) % 3 if m > 3 else [0] * m].T
            rs = pyrayt.RaySet(m)
            rs.rays[0], rs.rays[1, :3] = pts, d
            rs.wavelength = 0.5 + 1e-6 * np.arange(m)
            rs.index = 1 + 1e-6 * (np.arange(m) % 3)
            w = reference(d, nrm, np.array(rs.index), trace.glass_index("BK7", np.array(rs.wavelength)), 1)
            w = (w[0], w[1], w[2] * 10, w[3], w[4])
            out = matl.glass["BK7"].trace(node.real, rs)
            compare(ctx, (np.array(out.rays[1]), np.array(out.index)), w, f"glass, {m} rays close together", d, nrm.astype(float))


def materials(ctx):
    """glass on surfaces: mixed wavelengths, indices and sides"""
    surfaces = {"sphere": (lambda m: cg.Sphere(2, material=m).scale(1, 2, 0.7).move(0.3, 0, -1), [2]),
                "cuboid": (lambda m: cg.Cuboid((-1, -2, -0.5), (1, 1.5, 0.7), material=m).rotate_z(25), [[-1, -2, -0.5], [1, 1.5, 0.7]]),
                "cylinder": (lambda m: cg.Cylinder(1.2, -1, 2, material=m).rotate_x(70), [1.2, -1, 2]),
                "paraboloid": (lambda m: cg.Paraboloid(0.5, 2, material=m).rotate_y(40), [0.5, 2]),
                "plane": (lambda m: cg.XYPlane(3, 2, material=m).rotate_y(-35), [3, 2])}
    glasses = {"BK7": matl.glass["BK7"], "SF5": matl.glass["SF5"], "SF2": matl.glass["SF2"], "ideal": matl.glass["ideal"],
               "n1.9": matl.BasicRefractor(1.9), "n0.8": matl.BasicRefractor(0.8)}
    for kind, g, inverted in itertools.product(surfaces, glasses, (False, True)):
        data = {"surface": kind, "glass": g, "inverted": inverted}
        if not ctx.selected(data):
            continue
        with ctx.case(data):
            surf = surfaces[kind][0](glasses[g])
            if inverted:
                surf.invert_normals()
            leaf = oracle.Leaf(kind, surfaces[kind][1])
            leaf.pose.m = surf.get_world_transform().astype(LD)
            leaf.pose.i = oracle.inverse(leaf.pose.m)
            # points on the surface by shooting the reference body
            c = leaf.pose.m[:3, 3].astype(float)
            dirs = np.array([x for x in itertools.product((-0.83, -0.31, 0.17, 0.74), repeat=3)])
            rays = np.zeros((2, 4, len(dirs)))
            rays[0, :3] = (c + 0.01)[:, None] - dirs.T * 7
            rays[0, 3] = 1
            rays[1, :3] = dirs.T / np.linalg.norm(dirs, axis=1)
            t0, t1 = leaf.span(rays)
            hit = np.isfinite(t0) & np.isfinite(t1)
            t = np.where(np.arange(len(dirs)) % 2, t0, t1)[hit].astype(float)
            pts = rays[0][:, hit] + t * rays[1][:, hit]
            nrm, fine = leaf.normal(pts, tol=1e-4)
            nrm = nrm * (-1 if inverted else 1)
            reps = 6
            pts, nrm, fine = np.tile(pts, (1, reps)), np.tile(nrm, (1, reps)), np.tile(fine, reps)
            m = pts.shape[1]
            rs = pyrayt.RaySet(m)
            k = np.arange(m)
            q = np.array([x for x in itertools.product((-1, -0.37, 0.21, 0.66), repeat=3)])
            dd = q[(k * 29) % len(q)].T
            dd = dd / np.linalg.norm(dd, axis=0)
            rs.rays[0], rs.rays[1, :3] = pts, dd
            rs.wavelength = np.array([0.38, 0.4861, 0.5893, 0.6563, 0.75, 1.1])[k % 6]
            rs.index = np.array([1, 1.5, 1.0, 1.7, 2.2])[(k // 3) % 5]
            rs.intensity = 1.0 + k
            rs.generation = k % 4
            rs.id = k[::-1]
            before = rs.copy()
            out = glasses[g].trace(surf, rs)
            if not ctx.expect(isinstance(out, pyrayt.RaySet) and out.shape == before.shape, "trace returned no ray set"):
                continue
            w = reference(dd, nrm.astype(float), np.array(before.index), trace.glass_index(g, np.array(before.wavelength)), 1)
            w = (w[0], w[1], w[2] * 1e4, w[3] | ~fine, w[4])          # (the normals come from rounded points)
            got_d = np.array(out.rays[1])
            compare(ctx, (got_d, np.array(out.index)), w, f"{g} on a {kind}", dd, nrm)
            for f in ("wavelength", "intensity", "generation", "id"):
                ctx.expect(bool(np.array_equal(getattr(out, f), getattr(before, f))), f"refraction changed the {f}")
            ctx.expect(bool(np.array_equal(out.rays[0], before.rays[0])), "refraction moved the rays")
