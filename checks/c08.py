"""C08: mirrors and absorbers: the vector function, the materials on surfaces, and traces onto mirrors of all shapes."""
import itertools
import numpy as np
import pyrayt
import tinygfx.g3d as cg
from pyrayt import materials as matl
from mc import core, trace, scene, oracle, sizes
from mc.oracle import LD
from mc.scene import leaf, csg, build
from checks import c07, scenes

LEVEL = "model_checking"
RULE = ("state = (normal, batch form) of the reflection function, (surface, pose, material) of materials called on mixed ray "
        "sets, or a mirror or absorber of some shape and pose traced with the ray lattice; compared with specular reflection "
        "about the reference normal; non-trivial = a reflected or absorbed ray")
ASSUMPTIONS = ["points on edges, where two faces meet, have no normal"]


def mirrored(d, n):
    d, n = d.astype(LD), n.astype(LD)
    return d - 2 * n * (d * n).sum(0) / (n * n).sum(0)


def expect(ctx, got, want, what, tol=1e-12, **more):
    g = np.asarray(got, dtype=float)
    ctx.evaluations += want.shape[-1] if want.ndim > 1 else 1
    ctx.nontrivial += want.shape[-1] if want.ndim > 1 else 1
    if not ctx.expect(g.shape == want.shape, f"{what}: result has shape {g.shape} instead of {want.shape}", n=0):
        return
    scale = 1 + np.abs(want).max().astype(float)
    bad = ~(np.abs(g - want) < tol * scale)
    if bad.any():
        i = int(np.nonzero(bad)[-1][0]) if bad.ndim > 1 else 0
        ctx.fail(f"{what}: wrong reflection", got=g[..., i].tolist(), want=np.asarray(want[..., i], dtype=float).tolist(),
                 **{k: np.asarray(v)[..., i].tolist() for k, v in more.items()})


def run(ctx):
    vecs = np.array([x for x in itertools.product((-1, -0.4, 0, 0.3, 1.0), repeat=3) if any(x)])
    vecs = np.concatenate((vecs, vecs[::7] * 6.5, vecs[::5] * 1e-4))
    normals = [np.array(n) / np.linalg.norm(n) for n in c07.NORMALS + [(0, 0, -1), (2, -1, 3), (0.6, 0.8, 0), (-1, -1, 0.01)]]
    if ctx.thorough:
        normals += [np.array(n) / np.linalg.norm(n) for n in itertools.product((-1, -0.2, 0, 0.7), repeat=3) if any(n)]
    V = c07.four(vecs.T)
    for n in normals:
        for sign in (1, -1):
            data = {"normal": (sign * n).tolist()}
            if not ctx.selected(data):
                continue
            with ctx.case(data):
                n4 = np.append(sign * n, 0)
                want = np.vstack((mirrored(vecs.T, np.tile(n[:, None], (1, len(vecs)))), np.zeros((1, len(vecs)))))
                keep = V.copy(), n4.copy()
                expect(ctx, cg.reflect(V, n4), want, "one normal for all", vector=V)
                N = np.tile(n4[:, None], (1, len(vecs)))
                expect(ctx, cg.reflect(V, N), want, "normal per vector", vector=V)
                for i in range(0, len(vecs), 1 if ctx.thorough else 5):
                    expect(ctx, cg.reflect(V[:, i].copy(), n4), want[:, i], "single vector", vector=V[:, i])
                    expect(ctx, cg.reflect(V[:, i:i + 1].copy(), n4[:, None].copy()), want[:, i:i + 1], "batch of one")
                for m in (2, 3, 4, 5):
                    expect(ctx, cg.reflect(V[:, :m].copy(), n4), want[:, :m], f"{m} vectors, one normal")
                    expect(ctx, cg.reflect(V[:, :m].copy(), N[:, :m].copy()), want[:, :m], f"{m} vectors")
                ctx.expect(np.array_equal(V, keep[0]) and np.array_equal(n4, keep[1]), "reflect changed an argument")
    # different normals in one batch
    for stride in (1, 3, 7):
        data = {"mixed": stride}
        if ctx.selected(data):
            with ctx.case(data):
                k = (np.arange(len(vecs) * len(normals)) * stride)
                v, n = vecs[k % len(vecs)].T, np.array(normals)[(k // 2) % len(normals)].T
                want = np.vstack((mirrored(v, n), np.zeros((1, v.shape[1]))))
                expect(ctx, cg.reflect(c07.four(v), c07.four(n)), want, "mixed normals", vector=v, normal=n)
    # batches of every size
    k = np.arange(41)
    v, n = vecs[(7 * k) % len(vecs)].T, np.array(normals)[k % len(normals)].T
    few = np.concatenate((c07.four(v), c07.four(n)))
    p = np.concatenate([n * 2 + [[0.3], [0], [0]], v / np.linalg.norm(v, axis=0), [0.4 + 0.01 * k], [1 + 0.1 * k]])
    for size in sizes.sizes(19 if ctx.thorough else 17):
        data = {"batch of": size}
        if ctx.selected(data):
            with ctx.case(data):
                sizes.repeated(ctx, "reflect", lambda a: [cg.reflect(a[:4], a[4:])], few, size, 1e-12, 1e-12)
                if size < 20000:
                    for m in (matl.mirror, matl.absorber):
                        ball = cg.Sphere(2, material=m).move_x(0.3)
                        sizes.repeated(ctx, "mirror or absorber", lambda a: c07.through(ball, a), p, size, 1e-12, 1e-12)
    # vectors of any length, and with parts of any smallness
    tiny = np.array([x for x in itertools.product((-1, 3e-10, 0, -7e-9, 0.4, 2e-13), repeat=3) if any(x)]).T
    for size, n in itertools.product((1e-30, 1e-12, 3e-9, 1.0, 1e7, 1e30), normals):
        data = {"length": size, "normal": n.tolist()}
        if ctx.selected(data):
            with ctx.case(data):
                for vs in (V, c07.four(tiny)):
                    want = np.vstack((mirrored(vs[:3], np.tile(n[:, None], (1, vs.shape[1]))), np.zeros((1, vs.shape[1]))))
                    own = np.maximum(np.abs(want).max(0), 1e-300)
                    nn = np.tile(np.append(n, 0)[:, None], (1, vs.shape[1]))
                    expect(ctx, cg.reflect(vs * size, nn) / size / own, want / own, "vectors of any length", tol=1e-13, vector=vs)
                    expect(ctx, cg.reflect(vs * size, np.append(n, 0)) / size / own, want / own, "one normal for all", tol=1e-13, vector=vs)
    on_surfaces(ctx)
    bundled(ctx)
    traced(ctx)


SURFACES = {"sphere": [1.3], "cuboid": [[-1, -2, -0.5], [1, 1.5, 0.7]], "cylinder": [1.2, -1, 2], "paraboloid": [0.5, 2],
            "plane": [3, 2]}
POSES = [[], [["move", 1, -2, 0.5]], [["rx", 33], ["rz", -70]], [["scale", 2, 0.5, 1.3]], [["scale", 1, 3, 0.4], ["ry", 50], ["move", 0, 1, 2]]]


def on_surfaces(ctx):
    for kind, pose, inverted, matn in itertools.product(SURFACES, range(len(POSES)), (False, True), ("mirror", "absorb")):
        data = {"surface": kind, "pose": pose, "inverted": inverted, "material": matn}
        if not ctx.selected(data):
            continue
        with ctx.case(data):
            node = build(leaf(kind, SURFACES[kind], POSES[pose], matn))
            if inverted:
                node.real.invert_normals()
            l = node.tree
            c = l.pose.m[:3, 3].astype(float)
            dirs = np.array([x for x in itertools.product((-0.83, -0.31, 0.17, 0.74), repeat=3)])
            rays = np.zeros((2, 4, len(dirs)))
            rays[0, :3] = (c + 0.01)[:, None] - dirs.T * 9
            rays[0, 3] = 1
            rays[1, :3] = dirs.T / np.linalg.norm(dirs, axis=1)
            t0, t1 = l.span(rays)
            hit = np.isfinite(t0) & np.isfinite(t1) & (t0 <= t1)
            t = np.where(np.arange(len(dirs)) % 2, t0, t1)[hit].astype(float)
            pts = np.tile(rays[0][:, hit] + t * rays[1][:, hit], (1, 5))
            nrm, fine = l.normal(pts, tol=1e-4)
            m = pts.shape[1]
            rs = pyrayt.RaySet(m)
            k = np.arange(m)
            q = np.array([x for x in itertools.product((-1, -0.37, 0.21, 0.66), repeat=3)])
            dd = q[(k * 29) % len(q)].T
            dd = dd / np.linalg.norm(dd, axis=0)
            rs.rays[0], rs.rays[1, :3] = pts, dd
            rs.wavelength, rs.index, rs.intensity = 0.4 + 0.001 * k, 1 + 0.01 * k, 1.0 + k
            rs.generation, rs.id = k % 4, k[::-1]
            before = rs.copy()
            material = matl.mirror if matn == "mirror" else matl.absorber
            out = material.trace(node.real, rs)
            if not ctx.expect(isinstance(out, pyrayt.RaySet) and out.shape == before.shape, "trace returned no ray set"):
                continue
            for f in ("wavelength", "index", "intensity", "generation", "id"):
                ctx.expect(bool(np.array_equal(getattr(out, f), getattr(before, f))), f"{matn} changed the {f}")
            ctx.expect(bool(np.array_equal(out.rays[0], before.rays[0])), f"{matn} moved the rays")
            got = np.array(out.rays[1])
            if matn == "absorb":
                ctx.nontrivial += m
                ctx.expect(bool(np.all(got == 0)), "an absorbed ray keeps a direction", n=m)
            else:
                want = np.vstack((mirrored(dd, nrm), np.zeros((1, m))))
                expect(ctx, got[:, fine], want[:, fine], f"mirror on a {kind}", tol=1e-7, vector=dd[:, fine], point=pts[:, fine])


def bundled(ctx):
    """rays that arrive close together: on a big mirror their normals hardly differ, but they do"""
    for name, spec, pts, nrm in scenes.bundles(ctx.thorough):
        data = {"bundle": name}
        if not ctx.selected(data):
            continue
        with ctx.case(data):
            node = build(dict(spec, m="mirror"))
            m = pts.shape[1]
            d = np.array([[-0.6, 0.48, 0.64], [0.8, 0, -0.6], [0, 0.28, 0.96]])[np.arange(m) % 3 if m > 3 else [0] * m].T
            rs = pyrayt.RaySet(m)
            rs.rays[0], rs.rays[1, :3] = pts, d
            got = matl.mirror.trace(node.real, rs)
            want = np.vstack((mirrored(d, nrm), np.zeros((1, m))))
            expect(ctx, np.array(got.rays[1]), want, f"mirror, {m} rays close together", tol=1e-10, vector=d, point=pts)


def traced(ctx):
    """mirrors and absorbers of all shapes, alone and facing each other"""
    shapes = {k: leaf(k, p) for k, p in SURFACES.items()}
    shapes["difference"] = csg("difference", shapes["cuboid"], leaf("sphere", [0.8], [["move", -1, 0, 0]]))
    shapes["union"] = csg("union", leaf("sphere", [0.9]), leaf("cylinder", [0.4, -1.4, 1.2], [["rx", 60]]))

    def paint(s, m):
        return dict(s, m=m) if "k" in s else dict(s, l=paint(s["l"], m), r=paint(s["r"], m))

    o, d = scenes.lattice(ctx.thorough)
    src = trace.Fixed(o, d, wavelength=0.6, intensity=np.linspace(1, 90, len(o)))
    for a, pose, m in itertools.product(shapes, range(len(POSES)), ("mirror", "absorb")):
        for b in ("none", "plane", "sphere") if not ctx.thorough else ["none"] + list(shapes):
            data = {"trace": a, "pose": pose, "material": m, "facing": b}
            if not ctx.selected(data):
                continue
            with ctx.case(data, steps=6):
                s = paint(shapes[a], m)
                nodes = [build(dict(s, ops=list(s["ops"]) + POSES[pose]))]
                if b != "none":
                    t = paint(shapes[b], "mirror")
                    nodes.append(build(dict(t, ops=list(t["ops"]) + [["scale", 2, 2, 2], ["ry", 75], ["move", 5.5, 0, 0]])))
                df = pyrayt.RayTracer(src, [n.real for n in nodes], rays_per_source=len(src), generation_limit=6).trace()
                trace.conform(ctx, df, trace.emit(src, len(src)), nodes, 6)
