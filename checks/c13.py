"""C13: owners of CSG hits, surface id lists, and normals pointing out of the composite."""
import itertools
import numpy as np
from mc import core, oracle, scene
from checks import csgspace

LEVEL = "model_checking"
RULE = ("state = CSG tree x sequence of invert/reset calls on its nodes; for every hit of the line lattice the owner "
        "must be the part whose boundary is there, and the normal of the owner must point out of the composite (decided by "
        "membership on both sides of the hit); non-trivial = a hit")
ASSUMPTIONS = ["hits where several faces coincide are only checked to be owned by one of them"]


def check_normals(ctx, node, world, L, hits, ids, sign, what):
    """normals at all hits against the reference: outward normal of the leaf, turned over where the leaf is subtracted"""
    risky = L.risky(world) | (L.tied & L.finite).any(axis=0)
    by_id = {l.real.get_id(): l for l in oracle.leaves(node.tree)}
    lut = {}
    for sid, surf in node.real.surface_ids:
        lut[sid] = surf
    exp_sign = {}
    for e in range(L.times.shape[0]):
        for k, l in enumerate(L.leaves):
            exp_sign.setdefault(k, np.zeros(world.shape[2], dtype=int))
    for r in range(hits.shape[0]):
        live = np.isfinite(hits[r]) & ~risky
        for sid in np.unique(ids[r][live]):
            m = live & (ids[r] == sid)
            if sid not in by_id:
                ctx.fail(f"{what}: hit owned by an id that is no part of the object", got=int(sid))
                continue
            leaf = by_id[sid]
            k = [i for i, l in enumerate(L.leaves) if l is leaf][0]
            pts = world[0][:, m] + hits[r][m] * world[1][:, m]
            n, ok = leaf.normal(pts, tol=1e-5)
            # orientation from membership: is the composite inside where the leaf is?
            toggle = np.zeros(int(m.sum()), dtype=int)
            for e in range(L.times.shape[0]):
                here = (L.owner[e][m] == k) & (np.abs(np.where(L.finite[e][m], L.times[e][m], 1e30) - hits[r][m]) < 1e-6)
                toggle = np.where(here, L.toggle_out[e][m], toggle)
            got = lut[sid].get_world_normals(pts)[:3]
            want = sign * toggle * np.asarray(n, dtype=float)
            bad = ok & (toggle != 0) & ~(np.abs(got - want).max(axis=0) < 1e-6)
            ctx.evaluations += int(m.sum())
            ctx.nontrivial += int((ok & (toggle != 0)).sum())
            ctx.count(f"normal {'as' if sign > 0 else 'inverted'} {'+' if toggle.sum() > 0 else '-'}", int(m.sum()))
            if bad.any():
                i = int(np.nonzero(bad)[0][0])
                ctx.fail(f"{what}: normal does not point {'out of' if sign > 0 else 'into'} the composite",
                         point=pts[:3, i].tolist(), got=got[:, i].tolist(), want=want[:, i].tolist(),
                         leaf=[leaf.kind, leaf.params])


def run(ctx):
    rays = csgspace.lattice(ctx.thorough)
    flip_seqs = [(), ("invert",), ("invert", "invert"), ("invert", "reset"), ("reset",), ("reset", "invert")]
    for n, (name, spec) in enumerate(csgspace.trees(ctx.thorough)):
        motion = [] if n % 5 else [["ry", 30], ["scale", 2, 0.5, 1], ["move", 0.5, 1, -2]]
        data = {"tree": name, "spec": dict(spec, ops=motion)}
        if not ctx.selected(data):
            continue
        with ctx.case(data, steps=1 + len(motion) + sum(map(len, flip_seqs))):
            node = scene.build(data["spec"])
            world = rays
            if motion:
                p = oracle.Pose(motion)
                world = np.stack([np.asarray(oracle.mm(p.m, rays[k].astype(oracle.LD)), dtype=float) for k in (0, 1)])
                world[1] /= np.linalg.norm(world[1, :3], axis=0)
            want = sorted(node.leaf_ids())
            got = node.real.surface_ids
            ctx.expect(sorted(i for i, _ in got) == want and all(s.get_id() == i for i, s in got),
                       "surface id list differs from the parts", got=[i for i, _ in got], want=want)
            hits, ids = node.real.intersect(world)
            L = scene.compare_hits(ctx, hits, ids, node.tree, world, node.leaf_ids(), "csg", check_owner=True)
            hits = np.where(np.isfinite(hits), hits, np.inf)
            for flips in (flip_seqs if n % 3 == 0 or ctx.thorough else flip_seqs[:1] + flip_seqs[-3:]):
                sign = 1
                node.real.reset_normals() if flips else None
                for f in flips:
                    (node.real.invert_normals if f == "invert" else node.real.reset_normals)()
                    sign = -sign if f == "invert" else 1
                sel = slice(None) if not flips else slice(None, None, 9)
                check_normals(ctx, node, world[:, :, sel], _sub(L, sel), hits[:, sel], ids[:, sel], sign,
                              "after " + ",".join(flips) if flips else "as built")


    # other units of length: owners
    for n, (name, spec) in enumerate(csgspace.trees(False)):
        for s in (1e-12, 1e-9, 1e-6, 1e-3, 1e6) if ctx.thorough else (1e-9, 1e-5, 1e5):
            data = {"unit": s, "tree": name}
            if n % (3 if ctx.thorough else 7) == 5 % (3 if ctx.thorough else 7) and ctx.selected(data):
                with ctx.case(data):
                    scene.compare_resized(ctx, spec, s, rays, "csg")


def _sub(L, sel):
    s = object.__new__(oracle.Lines)
    s.tree, s.leaves = L.tree, L.leaves
    for f in ("times", "owner", "gap", "before", "after", "change", "toggle_out", "tied", "finite"):
        setattr(s, f, getattr(L, f)[:, sel])
    return s
