"""C11: world normals.  Every primitive x transform sequence x surface point lattice x invert/reset sequence."""
import numpy as np
from mc import core, oracle, scene
from checks.c10 import PRIMS as BASE

LEVEL = "model_checking"
RULE = ("state = primitive after a sequence of transforms and a sequence of invert/reset calls; in every state the normals "
        "at a lattice of points on every face are compared with the inverse-transpose reference; every point is "
        "non-trivial")
ASSUMPTIONS = ["points closer than 1e-10 (relative) to an edge, where two faces meet, are not compared"]
# thin bodies, bodies far from their own origin and large faces: points that are near one face and on another
PRIMS = BASE + [["cuboid", [[1000, -1, -1], [1000.005, 1, 1]]], ["cuboid", [[-1, -1, 250], [1, 1, 250.001]]],
                ["cuboid", [[-1, -1e-6, -1], [1, 1e-6, 1]]], ["cuboid", [[-2e4, -2e4, 0], [2e4, 2e4, 1]]],
                ["cylinder", [1, 1000, 1000.005]], ["cylinder", [1, -700, -690]], ["cylinder", [3, -1e-6, 1e-6]],
                ["cylinder", [5e3, 0, 2]], ["paraboloid", [0.01, 1000]], ["paraboloid", [500, 1e-3]]]
OPS = [["move", 1.3, -0.7, 0.45], ["rx", 90], ["ry", 35], ["rz", -120], ["scale", 2, 0.5, 3], ["scale", 0.1, 7, 1],
       ["scale", 0.25, 2, 2], ["scale", 1.00004, 1, 0.99999]]
UNITS = (1e-30, 1e-15, 1e-12, 1e-9, 1e-7, 1e-5, 1e-3, 1e3, 1e6, 1e9, 1e18)
OPS_T = OPS + [["move", -40, 25, 60], ["ry", 90], ["scale", 20, 20, 20], ["scale", 1, 1.001, 1], ["scale", 1.000004, 1, 1]]


def face_points(kind, p, n=7):
    """object space points on every face, away from the edges"""
    az = np.concatenate((np.linspace(0, 2 * np.pi, 12, endpoint=False), np.linspace(0.3, 6.1, n)))
    out = []
    if kind == "sphere":
        for u in (-1, -0.999, -0.8, -0.3, 0, 0.2, 0.6, 0.99, 1):
            s = np.sqrt(1 - u * u)
            out += [(p[0] * s * np.cos(a), p[0] * s * np.sin(a), p[0] * u) for a in az]
    elif kind == "cylinder":
        r, a0, a1 = p
        for f in (1e-8, 1e-6, 0.002, 0.1, 0.5, 0.77, 0.998, 1 - 1e-6, 1 - 1e-7, 1 - 2e-9):
            out += [(r * np.cos(a), r * np.sin(a), a0 + f * (a1 - a0)) for a in az]
        for z in (a0, a1):
            out += [(r * f * np.cos(a), r * f * np.sin(a), z) for a in az for f in (0, 0.3, 0.7, 0.998, 1 - 1e-6, 1 - 1e-7, 1 - 2e-9)]
    elif kind == "paraboloid":
        f, h = p
        for t in (0, 0.001, 0.1, 0.5, 0.99, 1 - 3e-6, 1 - 1e-7, 1 - 3e-9):
            z = t * h
            r = np.sqrt(4 * f * z)
            out += [(r * np.cos(a), r * np.sin(a), z) for a in az]
        r = np.sqrt(4 * f * h)
        out += [(r * g * np.cos(a), r * g * np.sin(a), h) for a in az for g in (0, 0.4, 0.99, 1 - 3e-6, 1 - 1e-7, 1 - 3e-9)]
    elif kind == "cuboid":
        lo, hi = np.min(p, axis=0).astype(float), np.max(p, axis=0).astype(float)
        fr = (1e-8, 1e-6, 0.002, 0.2, 0.5, 0.9, 0.998, 1 - 1e-6, 1 - 2e-9)
        for ax in range(3):
            for b in (lo[ax], hi[ax]):
                for u in fr:
                    for v in fr:
                        q = lo + np.array([u, u, u]) * (hi - lo)
                        q[(ax + 2) % 3] = lo[(ax + 2) % 3] + v * (hi - lo)[(ax + 2) % 3]
                        q[ax] = b
                        out.append(tuple(q))
    else:
        out = [(x * p[0], y * p[1], 0) for x in (-0.5, -0.2, 0, 0.4) for y in (-0.5, 0, 0.31)]
    return np.array(out, dtype=float).T


def run(ctx):
    ops, depth = (OPS_T, 3) if ctx.thorough else (OPS, 2)
    flips = list(core.sequences(("invert", "reset"), 4 if ctx.thorough else 3))
    for prim in PRIMS:
        # rounding of the points is relative to the position, so the thin ones stay where they are made
        flat = prim not in BASE
        pts = face_points(*prim)
        hom = np.vstack((pts, np.ones((1, pts.shape[1]))))
        for seq in core.sequences(ops, depth - flat):
            data = {"prim": prim, "ops": [list(o) for o in seq]}
            if not ctx.selected(data):
                continue
            with ctx.case(data, steps=len(seq) + sum(len(f) for f in flips)):
                node = scene.build(scene.leaf(prim[0], prim[1], seq))
                world = np.asarray(oracle.mm(node.tree.pose.m, hom.astype(oracle.LD)), dtype=float)
                want, ok = node.tree.normal(world, tol=1e-10 if seq or flat else 1e-13)
                want = np.asarray(want, dtype=float)
                keep = world.copy()
                for flip in (flips if len(seq) < 2 else flips[:4]):
                    sign = 1
                    node.real.reset_normals()
                    for f in flip:
                        (node.real.invert_normals if f == "invert" else node.real.reset_normals)()
                        sign = -sign if f == "invert" else 1
                    got = node.real.get_world_normals(world)
                    ctx.evaluations += int(ok.sum())
                    ctx.nontrivial += int(ok.sum())
                    ctx.count(prim[0], int(ok.sum()))
                    if not ctx.expect(got.shape == world.shape, f"normals have shape {got.shape}"):
                        continue
                    ctx.expect(bool(np.all(got[3] == 0)), "normals have a homogeneous component")
                    err = np.abs(got[:3] - sign * want).max(axis=0)
                    bad = ok & ~(err < 1e-6)
                    if bad.any():
                        i = int(np.nonzero(bad)[0][0])
                        ctx.fail("wrong normal", flips=flip, n_bad=int(bad.sum()), point=world[:3, i].tolist(),
                                 object_point=pts[:, i].tolist(), got=got[:3, i].tolist(),
                                 want=(sign * want[:, i]).tolist())
                ctx.expect(bool(np.array_equal(keep, world)), "querying normals changed the points")
                for sign in (1, -1):
                    node.real.reset_normals()
                    if sign < 0:
                        node.real.invert_normals()
                    for i in np.nonzero(ok)[0][sign < 0:: max(1, int(ok.sum()) // 6)]:
                        for pt, shape in ((world[:, i], (4,)), (world[:, i:i + 1], (4, 1))):
                            one = node.real.get_world_normals(pt)
                            ctx.expect(one.shape == shape and bool(np.abs(one.ravel()[:3] - sign * want[:, i]).max() < 1e-6) and one[3] == 0,
                                       "a single point gets another normal than in an array", point=world[:3, i].tolist(),
                                       got=one.tolist(), want=(sign * want[:, i]).tolist())
    # other units of length
    for prim in PRIMS if ctx.thorough else BASE:
        flat = prim not in BASE
        pts = face_points(*prim)
        hom = np.vstack((pts, np.ones((1, pts.shape[1]))))
        for s in UNITS:
            for seq in core.sequences(ops, (0 if flat else 2 if ctx.thorough else 1)):
                data = {"prim": prim, "unit": s, "ops": [list(o) for o in seq]}
                if not ctx.selected(data):
                    continue
                with ctx.case(data, steps=len(seq) + 1):
                    spec = scene.leaf(prim[0], prim[1], seq)
                    model, node = scene.build(spec), scene.build(scene.resized(spec, s))
                    world = np.asarray(oracle.mm(model.tree.pose.m, hom.astype(oracle.LD)), dtype=float)
                    want, ok = model.tree.normal(world, tol=1e-9)
                    want = np.asarray(want, dtype=float)
                    world[:3] *= s
                    for sign in (1, -1):
                        if sign < 0:
                            node.real.invert_normals()
                        got = node.real.get_world_normals(world)
                        ctx.evaluations += int(ok.sum())
                        ctx.nontrivial += int(ok.sum())
                        bad = ok & ~(np.abs(got[:3] - sign * want).max(axis=0) < 1e-6)
                        if bad.any():
                            i = int(np.nonzero(bad)[0][0])
                            ctx.fail(f"wrong normal at {s:g} times the size", n_bad=int(bad.sum()), point=world[:3, i].tolist(),
                                     object_point=pts[:, i].tolist(), got=got[:3, i].tolist(), want=(sign * want[:, i]).tolist())
