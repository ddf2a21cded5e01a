"""C12: CSG hits are the boundaries of the boolean combination."""
import numpy as np
from mc import core, oracle, scene, sizes
from checks import csgspace

LEVEL = "model_checking"
RULE = ("state = CSG tree over the leaf alphabet (balls, boxes, rods, bowls, sheets; overlapping, nested, apart, touching, "
        "coplanar), optionally moved as a whole; every tree is probed with the whole line lattice and the complete hit lists "
        "are compared with a sweep over the reference intervals; non-trivial = at least one hit expected")
ASSUMPTIONS = ["where faces of several parts coincide, which of them is reported is left open, the inside/outside parity "
               "between the hits is still compared", "tangent lines (1e-6 relative) are not compared"]


def run(ctx):
    rays = csgspace.lattice(ctx.thorough)
    motions = [[], [["rx", 40], ["move", 3, -2, 1]], [["scale", 2, 0.5, 1.5], ["rz", 90]]]
    for n, (name, spec) in enumerate(csgspace.trees(ctx.thorough)):
        for motion in (motions if ctx.thorough or n % 7 == 0 or n < 40 else motions[:1]):
            data = {"tree": name, "spec": dict(spec, ops=motion)}
            if not ctx.selected(data):
                continue
            with ctx.case(data, steps=1 + len(motion)):
                node = scene.build(data["spec"])
                world = rays
                if motion:
                    p = oracle.Pose(motion)
                    world = np.stack([np.asarray(oracle.mm(p.m, rays[k].astype(oracle.LD)), dtype=float)
                                      for k in (0, 1)])
                    world[1] /= np.linalg.norm(world[1, :3], axis=0)
                keep = world.copy()
                hits, ids = node.real.intersect(world)
                ctx.expect(bool(np.array_equal(keep, world)), "intersecting changed the rays")
                ctx.expect(hits.shape == (2 * len(oracle.leaves(node.tree)), world.shape[2]) and hits.shape == ids.shape,
                           f"hits have shape {hits.shape}, ids {ids.shape}")
                L = scene.compare_hits(ctx, hits, ids, node.tree, world, node.leaf_ids(), "csg", check_owner=False)
                # a single ray is treated like one of a batch, with and without the object in its way
                clean = ~L.risky(world) & ~(L.tied & L.finite).any(axis=0)
                exp = np.isfinite(L.expected()).any(axis=0)
                for sel in (clean & exp, clean & ~exp):
                    for i in np.nonzero(sel)[0][:1]:
                        h1, i1 = node.real.intersect(world[:, :, i])
                        m = np.isfinite(hits[:, i])
                        ctx.expect(h1.shape == (hits.shape[0], 1) and bool(
                            np.allclose(h1[:, 0], hits[:, i], rtol=1e-8, atol=1e-8)) and bool(
                            np.array_equal(i1[m, 0], ids[m, i])), "a single ray is hit differently than in a batch",
                            ray=scene._rays(world, sel, 1))
    # other units of length, and lines that start far away or far behind
    for n, (name, spec) in enumerate(csgspace.trees(False)):
        if n % (3 if ctx.thorough else 11) and "holes" not in name:
            continue
        for s in (1e-15, 1e-9, 1e-6, 1e-5, 1e-3, 1e4, 1e6, 1e9) if ctx.thorough else (1e-9, 1e-6, 1e-4, 1e6):
            data = {"unit": s, "tree": name}
            if ctx.selected(data):
                with ctx.case(data):
                    scene.compare_resized(ctx, spec, s, rays, "csg", full=n % 2 == 0)
        for away in (-30, 200, -3e3, 5e4, -5e4):
            data = {"lines from": away, "tree": name}
            if ctx.selected(data):
                with ctx.case(data):
                    node = scene.build(spec)
                    world = rays.copy()
                    world[0] -= away * world[1]
                    hits, ids = node.real.intersect(world)
                    # the start is only known to so many digits, which a start far away turns into a sideways error
                    scene.compare_hits(ctx, hits, ids, node.tree, world, node.leaf_ids(), "csg from afar", check_owner=False,
                                       risk_tol=max(1e-6, 1e-13 * away ** 2))
    # batches of every size
    specs = list(csgspace.trees(False))
    for name in ("union(ball,box)", "difference(box,union(ball2,rod))", "intersect(ball,difference(box,rod))"):
        spec = dict(specs)[name]
        for size in sizes.sizes(17 if ctx.thorough else 15):
            data = {"batch of": size, "tree": name}
            if ctx.selected(data):
                with ctx.case(data):
                    few = rays[:, :, 3::max(1, rays.shape[2] // 29)][:, :, :29]
                    sizes.repeated(ctx, "csg", scene.build(spec).real.intersect, few, size)
