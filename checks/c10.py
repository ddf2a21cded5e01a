"""C10: ray-primitive intersections.  Every primitive x every transform sequence x the ray lattice."""
import itertools
import numpy as np
from mc import core, oracle, rays as R, scene, sizes

LEVEL = "model_checking"
RULE = ("state = primitive with parameters after a sequence of transforms; every state is probed with the whole ray "
        "lattice (aimed, axis-parallel, nearly axis-parallel, from inside, far away, non-unit directions), and the two hit "
        "parameters are compared with an extended-precision reference; non-trivial = the line meets the body")
ASSUMPTIONS = ["lines within 1e-6 (relative) of being tangent or running along an edge or in a face are counted as "
               "ambiguous, not compared", "scale factors between 0.05 and 1e6 per operation"]

PRIMS = [["sphere", [1]], ["sphere", [0.3]], ["sphere", [7.5]],
         ["cylinder", [1, -1, 1]], ["cylinder", [0.5, 0.25, 2]], ["cylinder", [4, -0.01, 0.01]],
         ["paraboloid", [1, 1]], ["paraboloid", [0.25, 3]], ["paraboloid", [5, 0.2]],
         ["cuboid", [[-1, -1, -1], [1, 1, 1]]], ["cuboid", [[0.25, -2, 1], [0.75, 3, 1.5]]],
         ["cuboid", [[1, 0.5, 2], [-1, -0.5, -2]]],
         ["plane", [2, 2]], ["plane", [0.5, 3]]]
OPS = [["move", 1.3, -0.7, 0.45], ["rx", 90], ["ry", 35], ["rz", -120], ["scale", 2, 0.5, 3], ["scale", 20, 20, 20],
       ["scale", 0.1, 0.05, 0.2], ["scale", 1e6, 1e6, 1e6]]
OPS_T = OPS + [["move", -40, 25, 60], ["ry", 90], ["rx", 1e-3], ["scale", 1, 1, 4], ["rz", 45]]


def local_lattice(kind, p, dense):
    """targets around the body and origins outside and inside, in object space"""
    if kind == "sphere":
        lo, hi = -np.ones(3) * p[0], np.ones(3) * p[0]
    elif kind == "cylinder":
        lo, hi = np.array([-p[0], -p[0], p[1]], float), np.array([p[0], p[0], p[2]], float)
    elif kind == "paraboloid":
        r = np.sqrt(4 * p[0] * p[1])
        lo, hi = np.array([-r, -r, 0.0]), np.array([r, r, p[1]])
    elif kind == "cuboid":
        lo, hi = np.min(p, axis=0).astype(float), np.max(p, axis=0).astype(float)
    else:
        lo, hi = np.array([-p[0] / 2, -p[1] / 2, -0.3]), np.array([p[0] / 2, p[1] / 2, 0.3])
    c, h = (lo + hi) / 2, (hi - lo) / 2
    f = [-1.13, -0.71, -0.31, 0.0, 0.17, 0.53, 0.97] if dense else [-1.13, -0.57, 0.0, 0.31, 0.93]
    targets = c + R.grid(f) * h
    out = [c + np.array(d) * h * s for d, s in zip(R.DIRS26, itertools.cycle((1.7, 2.9, 11.3)))]
    inside = [c, c + h * [0.3, -0.2, 0.4], c + h * [-0.6, 0.1, -0.5]]
    return targets, np.array(out + inside), c, h


def lattice(kind, p, dense):
    t, o, c, h = local_lattice(kind, p, dense)
    if not dense:
        o = np.concatenate((o[::2], o[-3:]))
    aimed = R.aim(o, t)
    par = R.cross(core.sub_grid(list(t), 40 if not dense else 120) , R.AXES)
    near = R.cross(np.concatenate((t[::11], o[-3:])), R.near_axis())
    far = R.aim([c + np.array([400.0, 300, -250])], t)
    far[1] *= 3.7      # directions need not be unit vectors
    back = aimed[:, :, ::7].copy()
    back[1, :3] *= -0.01
    # points next to where the faces end
    f = [-1.00003, -0.99997, -0.41, 0.27, 0.99996, 1.00004]
    rim = c + R.grid(f) * h
    rim = np.concatenate((rim, c + R.grid(f) * h * [np.sqrt(0.5), np.sqrt(0.5), 1], c + R.grid(f) * h * [0.6, 0.8, 1]))
    rim[:, 2] *= kind != "plane"
    rim = R.aim(o[::3], rim if dense else rim[::3])
    return R.join(aimed, par, near, far, back, rim)


# whole numbers stay, fractions are multiplied
LONG = [["cuboid", [[-1, -1, -1.0], [1, 2, 1.0]]], ["cuboid", [[-1.0, -2, -1], [1.5, 1, 1]]], ["cuboid", [[-1, -1.0, -1.0], [1, 1.0, 1.0]]],
        ["cylinder", [1, -1.0, 1.0]], ["cylinder", [1.0, -1, 1]], ["plane", [2, 2.0]], ["plane", [2.0, 2.0]], ["sphere", [1.0]]]


def slanted(kind, p, k):
    """unit directions that leave a long body by its end or by its side, from points in and next to it"""
    o = [(0.1, 0.2, 0.3), (-0.6, -0.3, 0.7), (0.4, -0.8, -0.9), (-1.3, 0.1, 0.2), (0.3, 2.2, -1.4)]
    d = []
    for ax, t, (u, v) in itertools.product(range(3), (0.1 / k, 0.9 / k, 1.7 / k, 30 / k, 0.3), ((1, 0), (0.6, 0.8), (-0.8, 0.6), (0.28, -0.96))):
        for sign in (1, -1):
            w = np.zeros(3)
            w[ax], w[(ax + 1) % 3], w[(ax + 2) % 3] = sign, t * u, t * v
            d.append(w)
    return R.cross(o, R.unit(d))


def carried(rays, ops):
    """rays moved along with the object, directions of unit length stay of unit length"""
    pose = oracle.Pose(ops)
    world = np.stack([np.asarray(oracle.mm(pose.m, rays[k].astype(oracle.LD)), dtype=float) for k in (0, 1)])
    near_unit = np.abs(np.linalg.norm(rays[1, :3], axis=0) - 1) < 1e-9
    world[1] /= np.where(near_unit, np.linalg.norm(world[1, :3], axis=0), 1)
    return world


def run(ctx):
    ops, depth = (OPS_T, 3) if ctx.thorough else (OPS, 2)
    seqs = list(core.sequences(ops, depth))
    for prim in PRIMS:
        base = lattice(prim[0], prim[1], ctx.thorough)
        for n, seq in enumerate(seqs):
            data = {"prim": prim, "ops": [list(o) for o in seq]}
            if not ctx.selected(data):
                continue
            with ctx.case(data, steps=len(seq) + 1):
                node = scene.build(scene.leaf(prim[0], prim[1], seq))
                leaf = node.tree
                rays = base if len(seq) < depth else base[:, :, n % 5::5]
                # rays are laid out in object space and carried along, then given unit direction in world space
                world = carried(rays, seq)
                # world-axis-parallel rays as well
                extra = R.cross(world[0, :3, ::29].T, R.AXES[:3]) if len(seq) else world[:, :, :0]
                world = R.join(world, extra)
                keep = world.copy()
                hits, ids = node.real.intersect(world)
                ctx.expect(bool(np.array_equal(keep, world)), "intersecting changed the rays")
                ctx.expect(hits.shape == (2, world.shape[2]), f"expected two hits per ray, got {hits.shape}")
                scene.compare_hits(ctx, hits, ids, leaf, world, node.leaf_ids(), prim[0], tol=1e-7)
                # a few rays alone, and the batch the other way round (up to rounding, away from edges)
                safe = ~leaf.edge_risk(world, 1e-6)
                for i in np.nonzero(safe)[0][:: max(1, int(safe.sum()) // 3)][:3]:
                    h1, _ = node.real.intersect(world[:, :, i:i + 1])
                    ctx.expect(h1.shape == (2, 1) and same(h1[:, 0], hits[:, i]),
                               "a single ray is hit differently than in a batch", ray=scene._rays(world, safe, 1))
                h2, _ = node.real.intersect(np.ascontiguousarray(world[:, :, ::-1]))
                ctx.expect(same(h2[:, ::-1][:, safe], hits[:, safe]), "reversing the batch changes the hits")
    # other units of length: everything a million times smaller or larger, bodies that are millions of times longer than wide
    for prim, seq, s in itertools.product(PRIMS, ((), (OPS[0], OPS[2], OPS[4])), (1e-30, 1e-15, 1e-12, 1e-9, 1e-6, 1e-5, 1e-3, 1e4, 1e6, 1e9, 1e12, 1e20)
                                          if ctx.thorough else (1e-12, 1e-9, 1e-6, 1e-4, 1e6, 1e12)):
        data = {"unit": s, "prim": prim, "ops": [list(o) for o in seq]}
        if ctx.selected(data):
            with ctx.case(data):
                rays = carried(lattice(prim[0], prim[1], ctx.thorough), seq)
                rays = rays[:, :, np.abs(np.linalg.norm(rays[1, :3], axis=0) - 1) < 1e-9]
                scene.compare_resized(ctx, scene.leaf(prim[0], prim[1], seq), s, rays, prim[0])
    for prim, k in itertools.product(LONG, (1e3, 1e5, 1e7, 1e9, 1e11)):
        p = [[v * k if isinstance(v, float) else v for v in q] if isinstance(q, list) else q * k if isinstance(q, float) else q for q in prim[1]]
        data = {"long": k, "prim": [prim[0], p]}
        if ctx.selected(data):
            with ctx.case(data):
                node = scene.build(scene.leaf(prim[0], p))
                rays = slanted(prim[0], p, k)
                hits, ids = node.real.intersect(rays)
                # relative to the length: the ends are known to 16 digits
                scene.compare_hits(ctx, hits, ids, node.tree, rays, node.leaf_ids(), "long " + prim[0], tol=1e-7)
    # batches of every size
    for prim, seq in itertools.product(PRIMS[::3] + [PRIMS[-1]], ((), (OPS[0], OPS[2], OPS[4]))):
        few = lattice(prim[0], prim[1], False)
        few = few[:, :, 5::max(1, few.shape[2] // 31)][:, :, :31]
        for size in sizes.sizes(19 if ctx.thorough else 17):
            data = {"batch of": size, "prim": prim, "ops": [list(o) for o in seq]}
            if ctx.selected(data):
                with ctx.case(data):
                    real = scene.build(scene.leaf(prim[0], prim[1], seq)).real
                    sizes.repeated(ctx, prim[0], real.intersect, few, size, 1e-8, 1e-8)
                    if len(seq) == 0:
                        on = np.asarray(real.intersect(few)[0])[0]
                        ok = np.isfinite(on)
                        if ok.sum() > 2:
                            sizes.repeated(ctx, f"normals of a {prim[0]}", lambda p: [real.get_world_normals(p)],
                                           few[0][:, ok] + on[ok] * few[1][:, ok], size, 1e-8, 1e-8)


def same(a, b):
    return bool(np.allclose(a, b, rtol=1e-8, atol=1e-8))
