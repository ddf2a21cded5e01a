"""Scenes as data: JSON-able specs, built as real objects and as reference trees; and the comparison of hits."""
import numpy as np

import tinygfx.g3d as cg
from pyrayt import materials as matl
from . import oracle
from .oracle import Leaf, LD, INF

REAL = {
    "sphere": lambda p, m: cg.Sphere(p[0], material=m),
    "cylinder": lambda p, m: cg.Cylinder(p[0], p[1], p[2], material=m),
    "paraboloid": lambda p, m: cg.Paraboloid(p[0], p[1], material=m),
    "cuboid": lambda p, m: cg.Cuboid(tuple(p[0]), tuple(p[1]), material=m),
    "plane": lambda p, m: cg.XYPlane(p[0], p[1], material=m),
}
CSG = {"union": lambda a, b: cg.csg.union(a, b), "intersect": lambda a, b: cg.csg.intersect(a, b),
       "difference": lambda a, b: cg.csg.difference(a, b)}
_MATERIALS = {}


def material(name):
    """absorb | mirror | n<index> | a catalog glass"""
    if name not in _MATERIALS:
        if name is None or name.startswith(("cauchy", "split")):      # (what only a user has, a check puts on)
            _MATERIALS[name] = matl.absorber
        elif name == "absorb":
            _MATERIALS[name] = matl.absorber
        elif name == "mirror":
            _MATERIALS[name] = matl.mirror
        elif name in matl.glass:
            _MATERIALS[name] = matl.glass[name]
        elif name.startswith(("dim", "wave", "index", "bend")):
            _MATERIALS[name] = Effect(name)
        elif name[0] == "n":
            _MATERIALS[name] = matl.BasicRefractor(float(name[1:]))
        else:
            raise ValueError(name)
    return _MATERIALS[name]


class Effect(matl.TracableMaterial):
    """a scripted answer of the environment: lets rays pass, after one change"""

    def __init__(self, name):
        super().__init__()
        self.name = name

    def trace(self, surface, ray_set):
        for word in ("dim", "wave", "index", "bend"):
            if self.name.startswith(word):
                v = float(self.name[len(word):])
        if self.name.startswith("dim"):
            ray_set.intensity = ray_set.intensity * v
        elif self.name.startswith("wave"):
            ray_set.wavelength = v
        elif self.name.startswith("index"):
            ray_set.index = v
        else:
            a = v * np.pi / 180
            x, y = np.array(ray_set.rays[1, 0]), np.array(ray_set.rays[1, 1])
            ray_set.rays[1, 0] = x * np.cos(a) - y * np.sin(a)
            ray_set.rays[1, 1] = x * np.sin(a) + y * np.cos(a)
        return ray_set


class Node:
    """a built object: real, model tree, and the same for its children"""

    def __init__(self, real, tree, kids=()):
        self.real, self.tree, self.kids = real, tree, kids

    def apply(self, op):
        oracle.apply_op(self.real, op)
        for leaf in oracle.leaves(self.tree):
            leaf.pose.apply(op)
        return self

    def nodes(self):
        yield self
        for k in self.kids:
            yield from k.nodes()

    def leaf_ids(self):
        return [l.real.get_id() for l in oracle.leaves(self.tree)]


def leaf(kind, params, ops=(), mat=None):
    return {"k": kind, "p": params, "ops": list(ops), "m": mat}


def csg(op, l, r, ops=()):
    return {"op": op, "l": l, "r": r, "ops": list(ops)}


def build(spec):
    if "k" in spec:
        real = REAL[spec["k"]](spec["p"], material(spec.get("m")))
        node = Node(real, Leaf(spec["k"], spec["p"], material=spec.get("m"), real=real))
    else:
        l, r = build(spec["l"]), build(spec["r"])
        node = Node(CSG[spec["op"]](l.real, r.real), (spec["op"], l.tree, r.tree), (l, r))
    for op in spec.get("ops", ()):
        node.apply(op)
    return node


def resized(spec, s):
    """the same scene in another unit of length: every length times s"""
    def op(o):
        if o[0] == "move":
            return ["move", *(s * v for v in o[1:4])]
        if o[0] == "tf":
            return ["tf", [[v * s if c == 3 and r < 3 else v for c, v in enumerate(row)] for r, row in enumerate(o[1])]]
        return o
    ops = [op(o) for o in spec.get("ops", ())]
    if "k" in spec:
        return dict(spec, p=[[s * v for v in q] if isinstance(q, (list, tuple)) else s * q for q in spec["p"]], ops=ops)
    return dict(spec, l=resized(spec["l"], s), r=resized(spec["r"], s), ops=ops)


def compare_resized(ctx, spec, s, rays, what, full=False, tol=1e-7):
    """The scene in another unit, both ways of getting there: built of resized parts, or built and then scaled.  The hits of the
    resized lines are those of the reference at unit size, times s.  Directions stay unit vectors."""
    model = build(spec)
    lines = {}
    world = rays.copy()
    world[0, :3] *= s
    # below 1e-7 an object cannot be scaled down any further, it is made that small
    for way in ("built", "scaled") if s > 1e-7 else ("built",):
        node = build(resized(spec, s) if way == "built" else dict(spec, ops=list(spec.get("ops", ())) + [["scale", s, s, s]]))
        for n, (nd, md) in enumerate(zip(node.nodes(), model.nodes()) if full else [(node, model)]):
            if n not in lines:
                lines[n] = oracle.Lines(md.tree, rays)
            hits, ids = nd.real.intersect(world)
            name = f"{what}, {way} at {s:g} times the size"
            compare_hits(ctx, np.asarray(hits) / s, ids, md.tree, rays, nd.leaf_ids(), name, lines=lines[n], tol=tol)
            if n == 0:
                resized_normals(ctx, md.tree, nd.tree, rays, s, np.asarray(hits) / s, np.asarray(ids), name)


def resized_normals(ctx, model, real, rays, s, hits, ids, what):
    turned = orientation(model)
    for a, b in zip(oracle.leaves(model), oracle.leaves(real)):
        r, c = np.nonzero((ids == b.real.get_id()) & np.isfinite(hits))
        r, c = r[::3], c[::3]
        if not len(r):
            continue
        pts = rays[0][:, c] + hits[r, c] * rays[1][:, c]
        want, ok = a.normal(pts, tol=1e-5)
        far = pts.copy()
        far[:3] *= s
        got = b.real.get_world_normals(far)
        # a point far out on a curved face is known to fewer digits
        bad = ok & ~(np.abs(got[:3] - turned[id(a)] * np.asarray(want, dtype=float)).max(axis=0) < 1e-5)
        ctx.evaluations += len(r)
        if bad.any():
            ctx.fail(f"{what}: wrong normal on a {a.kind}", at=far[:, bad][:, 0], got=got[:, bad][:, 0], n_bad=int(bad.sum()),
                     want=turned[id(a)] * np.asarray(want[:, bad][:, 0], dtype=float))
            return


def orientation(tree, sign=1):
    """+1 / -1 per leaf: does its outward normal point out of the composite"""
    if isinstance(tree, Leaf):
        return {id(tree): sign}
    out = dict(orientation(tree[1], sign))
    out.update(orientation(tree[2], -sign if tree[0] == "difference" else sign))
    return out


def compare_hits(ctx, hits, ids, node_tree, rays, leaf_ids, what, tol=1e-7, risk_tol=1e-6, check_owner=True,
                 lines=None):
    """Compare the full hit lists of lines with the reference; returns the Lines.  leaf_ids: id per leaf of the tree."""
    n = rays.shape[-1]
    L = lines if lines is not None else oracle.Lines(node_tree, rays)
    hits = np.asarray(hits)
    if not ctx.expect(hits.ndim == 2 and hits.shape[1] == n, f"{what}: hit array has shape {hits.shape} for {n} rays"):
        return L
    if not ctx.expect(not np.isnan(hits).any(), f"{what}: nan among the hits",
                      rays=_rays(rays, np.isnan(hits).any(axis=0))):
        return L
    srt = np.sort(hits, axis=0)
    if not ctx.expect(bool(np.all(srt == hits)), f"{what}: hits are not in ascending order",
                      rays=_rays(rays, (srt != hits).any(axis=0))):
        return L
    hits = np.where(np.isfinite(hits), hits, np.inf)
    risky = L.risky(rays, risk_tol)
    tied = (L.tied & L.finite).any(axis=0)
    exp = L.expected()
    order = np.argsort(exp, axis=0, kind="stable")
    exp = np.take_along_axis(exp, order, 0)
    own = np.take_along_axis(L.owner, order, 0)
    count = np.isfinite(exp).sum(0)
    got = np.isfinite(hits).sum(0)
    clean = ~risky & ~tied
    ctx.ambiguous += int((~clean).sum())
    ctx.evaluations += n
    ctx.nontrivial += int((clean & (count > 0)).sum())
    for c in np.unique(count[clean]):
        ctx.count(f"{int(c)} hits", int((clean & (count == c)).sum()))
    bad = clean & (count != got)
    if bad.any():
        _report(ctx, f"{what}: wrong number of hits", rays, bad, hits, exp)
        return L
    m = int(count.max()) if n else 0
    for r in range(min(m, hits.shape[0])):
        live = clean & (count > r)
        e = np.where(live, exp[r], 0)
        g = np.where(live, hits[r], 0)
        bad = live & (np.abs(g - e) > tol * (1 + np.abs(e)))
        if bad.any():
            _report(ctx, f"{what}: hit {r} at the wrong distance", rays, bad, hits, exp)
            return L
        if check_owner and ids is not None:
            # a sheet reports its double hit in either order, distinct owners are apart
            want = np.asarray(leaf_ids)[own[r]]
            bad = live & (np.asarray(ids)[r] != want)
            if bad.any():
                _report(ctx, f"{what}: hit {r} credited to the wrong surface", rays, bad, hits, exp,
                        got_id=np.asarray(ids)[r][bad][:3], want_id=want[bad][:3])
                return L
    # coinciding boundaries: which of the coincident faces is reported is open, but inside and outside are not
    part = ~risky & tied
    if part.any():
        E = L.times.shape[0]
        for g in range(E + 1):
            lo = L.times[g - 1] if g > 0 else L.times[0] - 2
            hi = L.times[g] if g < E else L.times[-1] + 2
            clear = part & np.isfinite(lo) & np.isfinite(hi) & (hi - lo > 1e-4)
            if g == 0:
                clear = part & np.isfinite(hi)
                mid = np.where(clear, hi - 1, 0)
            else:
                last = part & np.isfinite(lo) & ~np.isfinite(hi)
                clear |= last
                mid = np.where(last, lo + 1, np.where(clear, (np.where(np.isfinite(hi), hi, 0) + np.where(
                    np.isfinite(lo), lo, 0)) / 2, 0))
            parity = (hits < mid).sum(0) % 2 == 1
            bad = clear & (parity != L.gap[g])
            if bad.any():
                _report(ctx, f"{what}: inside and outside swapped between hits (coinciding faces)", rays, bad, hits,
                        L.times)
                return L
        ctx.count("coinciding faces", int(part.sum()))
        if check_owner and ids is not None:
            for r in range(hits.shape[0]):
                live = part & np.isfinite(hits[r])
                okk = np.zeros(n, dtype=bool)
                for e in range(E):
                    okk |= (np.abs(np.where(np.isfinite(L.times[e]), L.times[e], 1e30) - np.where(live, hits[r], 0))
                            < 1e-6) & (np.asarray(leaf_ids)[L.owner[e]] == np.asarray(ids)[r])
                bad = live & ~okk
                if bad.any():
                    _report(ctx, f"{what}: hit {r} is not on the surface it is credited to", rays, bad, hits, L.times,
                            got_id=np.asarray(ids)[r][bad][:3])
                    return L
    return L


def _rays(rays, mask, k=2):
    idx = np.nonzero(mask)[0][:k]
    return [{"origin": rays[0, :3, i].tolist(), "direction": rays[1, :3, i].tolist()} for i in idx]


def _report(ctx, what, rays, bad, hits, exp, **more):
    i = int(np.nonzero(bad)[0][0])
    ctx.fail(what, n_bad=int(bad.sum()), rays=_rays(rays, bad, 1), got=[float(v) for v in hits[:, i]],
             want=[float(v) for v in np.sort(np.asarray(exp)[:, i])], **more)
