"""Reference tracer: what a trace has to record, row by row.

The prediction is re-synchronised with the recorded end points after every generation, so rounding does not build up,
and each step is judged on its own: who is nearest, where that is, what the interaction does to the ray.
"""
import numpy as np

import pyrayt
import pyrayt.components as pc
from . import oracle
from .oracle import LD, INF, Leaf, leaves

COLS = ("generation", "intensity", "wavelength", "index", "id", "surface", "x0", "y0", "z0", "x1", "y1", "z1",
        "x_tilt", "y_tilt", "z_tilt")
OFFSET = 1e-6
SELLMEIER = {"BK7": ((1.03961212, 0.00600069867), (0.231792344, 0.0200179144), (1.01046945, 103.560653)),
             "SF5": ((1.52481889, 0.011254756), (0.187085527, 0.0588995392), (1.42729015, 129.141675)),
             "SF2": ((1.40301821, 0.0105795466), (0.231767504, 0.0493226978), (0.939056586, 112.405955))}


def glass_index(name, w):
    """refractive index of a material by its name, at wavelengths w in um"""
    w = np.asarray(w, dtype=LD)
    if name == "ideal":
        return np.full(w.shape, LD("1.5"))
    if name.startswith("cauchy"):
        return LD(float(name[6:])) + LD("0.006") / w ** 2
    if name[0] == "n":
        return np.full(w.shape, LD(float(name[1:])))
    return np.sqrt(1 + sum(LD(repr(b)) * w ** 2 / (w ** 2 - LD(repr(c))) for b, c in SELLMEIER[name]))


class Fixed(pc.Source):
    """a source that emits given rays: the same ones for every count (cycled)"""

    def __init__(self, o, d, wavelength=0.633, intensity=None, index=None):
        super().__init__(wavelength)
        self.o, self.d = np.array(o, dtype=float), np.array(d, dtype=float)
        self.d /= np.linalg.norm(self.d, axis=1, keepdims=True)
        self.intensity, self.index = intensity, index

    def __len__(self):
        return len(self.o)

    def _local_ray_generation(self, n):
        return self.generate_rays(n)

    def generate_rays(self, n):
        k = np.arange(n) % len(self.o)
        rs = pyrayt.RaySet(n)
        rs.rays[0, :3], rs.rays[1, :3] = self.o[k].T, self.d[k].T
        for f in ("wavelength", "intensity", "index"):
            v = getattr(self, f)
            if v is not None:
                setattr(rs, f, np.asarray(v, dtype=float)[k] if np.ndim(v) else v)
        return rs


def emit(sources, n):
    """what the sources send out, numbered as in a trace"""
    sets = [np.array(s.generate_rays(n)) for s in (sources if hasattr(sources, "__iter__") else [sources])]
    m = np.hstack(sets)
    m[12] = np.arange(m.shape[1])
    return m


class Part:
    """a component for the reference: tree, signs of the leaf normals, and the ids its leaves appear under"""

    def __init__(self, tree, real):
        self.tree, self.leaves = tree, leaves(tree)
        self.sign = {}
        self._orient(tree, 1)
        own = tuple(i for i, _ in real.surface_ids)
        self.ids = {id(l): (l.real.get_id(),) if l.real is not None else own for l in self.leaves}

    def _orient(self, tree, s):
        if isinstance(tree, Leaf):
            self.sign[id(tree)] = s
        else:
            self._orient(tree[1], s)
            self._orient(tree[2], -s if tree[0] == "difference" else s)


def parts(nodes):
    return [n if isinstance(n, Part) else Part(n.tree, n.real) for n in nodes]


def first_hits(part, rays, risk_tol):
    """(t, [leaf index per ray] or -1, candidates {ray: leaves} where faces coincide, ambiguous) of one component"""
    n = rays.shape[2]
    L = oracle.Lines(part.tree, rays)
    amb = L.risky(rays, risk_tol)
    ahead = L.finite & (L.times > -OFFSET / 2)
    hit = ahead & (L.change > 0)
    t = np.where(hit, L.times, INF)
    e = np.argmin(t, axis=0)
    cols = np.arange(n)
    best, leaf = t[e, cols], L.owner[e, cols]
    leaf = np.where(np.isfinite(best), leaf, -1)
    amb |= np.isfinite(best) & (np.abs(np.where(np.isfinite(best), best, 1)) < OFFSET / 2)
    tie = np.where(L.tied & ahead, L.times, INF).min(axis=0)
    many = {}
    for i in np.nonzero(~amb & np.isfinite(tie) & (tie <= best + 1e-6))[0]:
        r = _walk(L, int(i))
        if r is None:
            amb[i] = True
        else:
            best[i], cand = r
            leaf[i] = cand[0] if cand else -1
            if len(cand) > 1:
                many[int(i)] = cand
    return best, leaf, many, amb


def _walk(L, i):
    """first hit of a line on which boundaries coincide: (t, leaves that have a face there), or None if open"""
    E = L.times.shape[0]
    e = 0
    while e < E and np.isfinite(L.times[e, i]):
        f = e
        while f + 1 < E and np.isfinite(L.times[f + 1, i]) and L.times[f + 1, i] - L.times[f, i] < 1e-7 * (
                1 + abs(L.times[f, i])):
            f += 1
        t = L.times[e, i]
        if t > -OFFSET / 2:
            if t < OFFSET / 2:
                return None
            own = sorted(set(int(k) for k in L.owner[e:f + 1, i]))
            if L.gap[e, i] != L.gap[f + 1, i]:
                return t, own
            if len(own) == 1:
                if L.change[e, i] > 0:
                    return t, own
            else:
                return None
        e = f + 1
    return INF, []


class Nearest:
    def __init__(self, ps, rays, risk_tol=1e-6):
        n = rays.shape[2]
        self.t = np.full(n, INF)
        self.part = np.full(n, -1)
        self.leaf = np.full(n, -1)
        self.amb = np.zeros(n, dtype=bool)
        self.many = {}
        second = np.full(n, INF)
        for k, p in enumerate(ps):
            t, leaf, many, amb = first_hits(p, rays, risk_tol)
            self.amb |= amb
            better = t < self.t
            second = np.where(better, self.t, np.minimum(second, t))
            self.t = np.where(better, t, self.t)
            self.part = np.where(better, k, self.part)
            self.leaf = np.where(better, leaf, self.leaf)
            for i in np.nonzero(better)[0]:
                self.many.pop(int(i), None)
                if int(i) in many:
                    self.many[int(i)] = many[int(i)]
        fin = np.isfinite(self.t)
        with np.errstate(invalid="ignore"):
            self.amb |= fin & (second - np.where(fin, self.t, 0) < 1e-6 * (1 + np.abs(np.where(fin, self.t, 0))))
        self.hit = fin


def interact(name, d, n, wl, index, inten):
    """(new direction, index, intensity, wavelength, alive, slack, outcome) for one material; n points out of the body"""
    m = d.shape[1]
    slack = np.ones(m)
    if name in (None, "absorb"):
        return np.zeros_like(d), index, inten, wl, np.zeros(m, dtype=bool), slack, np.full(m, "absorbed", dtype=object)
    if name == "mirror":
        return d - 2 * n * (d * n).sum(0), index, inten, wl, np.ones(m, dtype=bool), slack, np.full(
            m, "reflected", dtype=object)
    if name.startswith("dim"):
        return d, index, inten * float(name[3:]), wl, np.ones(m, dtype=bool), slack, np.full(m, "dimmed", dtype=object)
    if name.startswith("wave"):
        return d, index, inten, np.full(m, float(name[4:])), np.ones(m, dtype=bool), slack, np.full(
            m, "wavelength changed", dtype=object)
    if name.startswith("index"):
        return d, np.full(m, float(name[5:])), inten, wl, np.ones(m, dtype=bool), slack, np.full(
            m, "index changed", dtype=object)
    if name.startswith("bend"):
        a = LD(float(name[4:])) * oracle.PI / 180
        new = np.stack((d[0] * np.cos(a) - d[1] * np.sin(a), d[0] * np.sin(a) + d[1] * np.cos(a), d[2]))
        return new, index, inten, wl, np.ones(m, dtype=bool), slack, np.full(m, "bent", dtype=object)
    if name.startswith("split"):
        # a user's material: mirror below a wavelength, clear above
        back = wl < float(name[5:])
        return np.where(back, d - 2 * n * (d * n).sum(0), d), index, inten, wl, np.ones(m, dtype=bool), slack, np.where(
            back, "split off", "split through").astype(object)
    c = (d * n).sum(0)
    leaving = c > 0
    n2 = np.where(leaving, 1, glass_index(name, wl))
    nn = np.where(leaving, n, -n)        # along the ray
    c = np.abs(c)
    r = np.asarray(index, dtype=LD) / n2
    rad = 1 - r * r * (1 - c * c)
    tir = rad <= 0
    new = np.where(tir, d - 2 * c * nn, r * d + (np.sqrt(np.maximum(rad, 0)) - r * c) * nn)
    new = new / np.sqrt((new ** 2).sum(0))
    slack = 1 / np.maximum(np.sqrt(np.abs(rad)), 1e-5).astype(float)
    out = np.where(tir, "totally reflected", np.where(leaving, "refracted out", "refracted in")).astype(object)
    return new, np.where(tir, index, n2), inten, wl, np.ones(m, dtype=bool), slack, out


def conform(ctx, df, emitted, nodes, limit, threshold=0.1, what="trace", risk_tol=1e-6, tol=1e-7, path=None, offset=OFFSET):
    """Compare a results frame with the reference.  nodes: scene nodes or Parts; emitted: 13xN array from emit().
    path, if a dict, collects per ray the list of (surface id, outcome)."""
    ps = parts(nodes)
    missing = [c for c in COLS if c not in df.columns]
    if not ctx.expect(not missing, f"{what}: results have no columns {missing}"):
        return
    D = {c: df[c].to_numpy(dtype=float) for c in COLS}
    N = emitted.shape[1]
    ok = ctx.expect(bool(np.all(np.isfinite(np.stack([D[c] for c in COLS])))) if len(df) else True,
                    f"{what}: nan or infinite values in the results")
    ok = ok and ctx.expect(bool(np.all((D["id"] == np.round(D["id"])) & (D["id"] >= 0) & (D["id"] < max(N, 1)))),
                           f"{what}: ray ids outside 0..{N - 1}", ids=sorted(set(D["id"]))[:5] + sorted(set(D["id"]))[-5:])
    gens = set(D["generation"])
    ok = ok and ctx.expect(gens <= set(float(g) for g in range(max(int(np.ceil(limit)), 0))),
                           f"{what}: generations outside 0..{limit}-1", generations=sorted(gens))
    if not ok:
        return
    o = emitted[0:3].astype(LD)
    d = emitted[4:7].astype(LD)
    length = np.sqrt((d ** 2).sum(0))
    live = length > 1e-12
    d = d / np.where(live, length, 1)
    inten, wl, index = (emitted[k].astype(float).copy() for k in (9, 10, 11))
    known = np.ones(N, dtype=bool)
    slack = np.ones(N)
    for g in range(int(np.ceil(limit))):
        rows = np.nonzero(D["generation"] == g)[0]
        ids = D["id"][rows].astype(int)
        if not ctx.expect(len(set(ids)) == len(ids), f"{what}: a ray has two rows in generation {g}"):
            return
        row = np.full(N, -1)
        row[ids] = rows
        seg = live & (inten >= threshold)
        extra = (row >= 0) & known & ~seg
        if extra.any():
            i = int(np.nonzero(extra)[0][0])
            ctx.fail(f"{what}: a segment in generation {g} of a ray that had ended "
                     + ("(absorbed or missed)" if not live[i] else "(below the intensity threshold)"),
                     ray=i, n_bad=int(extra.sum()), intensity=float(inten[i]))
            return
        sel = np.nonzero(seg & known)[0]
        live = live & seg
        if len(sel) == 0:
            if not len(rows):
                break
            live[:] = live & (row >= 0)
            known &= row < 0
            continue
        rays = np.zeros((2, 4, len(sel)), dtype=LD)
        rays[0, :3], rays[1, :3] = o[:, sel], d[:, sel]
        rays[0, 3] = 1
        near = Nearest(ps, rays, risk_tol)
        amb = near.amb
        ctx.ambiguous += int(amb.sum())
        known[sel[amb]] = False
        ctx.evaluations += len(sel)
        have = row[sel] >= 0
        bad = ~amb & (have != near.hit)
        if bad.any():
            i = int(np.nonzero(bad)[0][0])
            ctx.fail(f"{what}: " + ("a segment is missing, the ray hits a surface" if near.hit[i] else
                                    "a segment is recorded, the ray hits nothing") + f" in generation {g}",
                     ray=int(sel[i]), n_bad=int(bad.sum()), start=[float(v) for v in o[:, sel[i]]],
                     direction=[float(v) for v in d[:, sel[i]]], want_distance=float(near.t[i]),
                     want_surface=_name(ps, near, i), got=_row(D, row[sel[i]]))
            return
        live[sel[~amb & ~near.hit]] = False
        ctx.count("missed", int((~amb & ~near.hit).sum()))
        k = np.nonzero(~amb & near.hit)[0]
        s = sel[k]
        if len(k) == 0:
            continue
        ctx.nontrivial += len(k)
        r = row[s]
        size = 1 + np.abs(o[:, s]).max(axis=0).astype(float)
        start = np.stack([D[c][r] for c in ("x0", "y0", "z0")])
        end = np.stack([D[c][r] for c in ("x1", "y1", "z1")])
        tilt = np.stack([D[c][r] for c in ("x_tilt", "y_tilt", "z_tilt")])

        def check(bad, text, **more):
            if bad.any():
                i = int(np.nonzero(bad)[0][0])
                ctx.fail(f"{what}: {text} in generation {g}", ray=int(s[i]), n_bad=int(bad.sum()),
                         got=_row(D, r[i]), want_start=[float(v) for v in o[:, s[i]]],
                         want_direction=[float(v) for v in d[:, s[i]]], want_distance=float(near.t[k[i]]),
                         want_surface=_name(ps, near, k[i]), **{n: float(v[i]) for n, v in more.items()})
                return True
            return False

        want_end = (o[:, s] + near.t[k] * d[:, s]).astype(float)
        far = 1 + np.abs(near.t[k]).astype(float)
        if check(np.abs(start - o[:, s].astype(float)).max(0) > 1e-10 * size, "a segment starts at the wrong place") \
                or check(~(np.abs((tilt ** 2).sum(0) - 1) < 1e-9), "a tilt is not a unit vector") \
                or check(np.abs(tilt - d[:, s].astype(float)).max(0) > (1e-8 * slack[s] if g else 1e-13), "a wrong tilt") \
                or check(np.abs(end - start - tilt * ((end - start) * tilt).sum(0)).max(0) > 1e-13 * size * far,
                         "a segment does not run along its tilt") \
                or check(np.abs(end - want_end).max(0) > tol * size * far * slack[s], "a segment ends at the wrong place") \
                or check(D["wavelength"][r] != wl[s], "a wrong wavelength", want=wl[s]) \
                or check(np.abs(D["intensity"][r] - inten[s]) > 1e-9 * np.abs(inten[s]), "a wrong intensity",
                         want=inten[s]) \
                or check(np.abs(D["index"][r] - index[s]) > 1e-9, "a wrong refractive index", want=index[s]):
            return
        # end of the segment: the surface there, and what it does to the ray
        got_id = D["surface"][r].astype(int)
        allowed = []
        for i in k:
            p = ps[near.part[i]]
            allowed.append([x for q in near.many.get(int(i), [near.leaf[i]]) for x in p.ids[id(p.leaves[q])]])
        if check(np.array([gid not in al for gid, al in zip(got_id, allowed)]), "the wrong surface is credited"):
            return
        point = np.vstack((end, np.ones((1, len(k))))).astype(LD)
        nd = np.zeros((3, len(k)), dtype=LD)
        for pi in np.unique(near.part[k]):
            p = ps[pi]
            for li in np.unique(near.leaf[k][near.part[k] == pi]):
                m = np.nonzero((near.part[k] == pi) & (near.leaf[k] == li))[0]
                leaf = p.leaves[li]
                nrm, fine = leaf.normal(point[:, m], tol=3e-5)
                nrm = nrm * p.sign[id(leaf)]
                name = leaf.material
                needs_normal = not (name in (None, "absorb") or name.startswith(("dim", "wave", "index", "bend")))
                hard = np.zeros(len(m), dtype=bool)
                if needs_normal:
                    hard |= ~fine
                    hard |= np.abs((nrm * d[:, s[m]]).sum(0)) < 1e-7          # grazing
                for j, mm in enumerate(m):
                    for q in near.many.get(int(k[mm]), []):
                        other = p.leaves[q]
                        on, _ = other.normal(point[:, mm:mm + 1])
                        if other.material != name or (needs_normal and np.abs(
                                on[:, 0] * p.sign[id(other)] - nrm[:, j]).max() > 1e-6):
                            hard[j] = True
                new, ni, nint, nw, alive, sl, out = interact(name, d[:, s[m]], nrm, wl[s[m]], index[s[m]], inten[s[m]])
                hard |= sl > 9e4                # critical angle
                known[s[m[hard]]] = False
                ctx.ambiguous += int(hard.sum())
                for x in set(out):
                    ctx.count(x, int((out == x).sum()))
                if path is not None:
                    for j, mm in enumerate(m):
                        path.setdefault(int(s[mm]), []).append((int(got_id[mm]), out[j]))
                d[:, s[m]] = new
                index[s[m]], inten[s[m]], wl[s[m]] = ni, nint, nw
                live[s[m]] = alive
                slack[s[m]] = sl
        o[:, s] = end + offset * d[:, s]
    return known


def _name(ps, near, i):
    if near.part[i] < 0:
        return None
    p = ps[near.part[i]]
    leaf = p.leaves[near.leaf[i]]
    return {"component": int(near.part[i]), "kind": leaf.kind, "params": leaf.params, "ids": p.ids[id(leaf)][:6]}


def _row(D, r):
    return None if r < 0 else {c: float(D[c][r]) for c in COLS}


def invariants(ctx, df, n, what="trace", offset=OFFSET):
    """what holds for every row of every trace, also for rays whose path the reference leaves open"""
    D = {c: df[c].to_numpy(dtype=float) for c in COLS}
    if not len(df):
        return
    order = np.lexsort((D["generation"], D["id"]))
    i, g = D["id"][order], D["generation"][order]
    first = np.concatenate(([True], i[1:] != i[:-1]))
    step = np.concatenate(([0], g[1:] - g[:-1]))
    if not ctx.expect(bool(np.all(np.where(first, g == 0, step == 1))), f"{what}: the generations of a ray have gaps"):
        return
    start, end, tilt = (np.stack([D[c][order] for c in cs]) for cs in (COLS[6:9], COLS[9:12], COLS[12:15]))
    ctx.expect(bool(np.all(np.abs((tilt ** 2).sum(0) - 1) < 1e-9)), f"{what}: a tilt is not a unit vector", n=len(df))
    along = ((end - start) * tilt).sum(0)
    size = 1 + np.abs(np.concatenate((start, end))).max(0)
    off = np.abs(end - start - along * tilt).max(0)
    bad = (off > 1e-9 * size) | (along < -1e-12)
    if bad.any():
        k = int(order[np.nonzero(bad)[0][0]])
        ctx.fail(f"{what}: a segment does not run along its tilt", row=_row(D, k))
        return
    later = ~first
    want = end[:, np.nonzero(later)[0] - 1] + offset * tilt[:, later]
    bad = np.abs(start[:, later] - want).max(0) > 1e-10 * size[later]
    if bad.any():
        k = int(order[np.nonzero(later)[0][np.nonzero(bad)[0][0]]])
        ctx.fail(f"{what}: a segment does not continue from the end of the previous one", row=_row(D, k))
    ctx.evaluations += len(df)


def predict(emitted, nodes, limit, risk_tol=1e-6, threshold=0.1):
    """Trace by the reference alone: (are all interactions of a ray well away from edges, ties and critical angles,
    how much its errors grow per generation).  Does not look at what the code does."""
    ps = parts(nodes)
    N = emitted.shape[1]
    o, d = emitted[0:3].astype(LD), emitted[4:7].astype(LD)
    length = np.sqrt((d ** 2).sum(0))
    live = length > 1e-12
    d = d / np.where(live, length, 1)
    inten, wl, index = (emitted[k].astype(float).copy() for k in (9, 10, 11))
    fair = np.ones(N, dtype=bool)
    slack = np.ones(N)
    for g in range(int(np.ceil(limit))):
        s = np.nonzero(live & fair & (inten >= threshold))[0]
        if not len(s):
            break
        rays = np.zeros((2, 4, len(s)), dtype=LD)
        rays[0, :3], rays[1, :3], rays[0, 3] = o[:, s], d[:, s], 1
        near = Nearest(ps, rays, risk_tol)
        bad = near.amb.copy()
        bad[list(near.many)] = True
        bad |= near.hit & (near.t < 3 * risk_tol)
        fair[s[bad]] = False
        live[s[~near.hit]] = False
        k = np.nonzero(~bad & near.hit)[0]
        for pi, li in sorted(set(zip(near.part[k].tolist(), near.leaf[k].tolist()))):
            m = k[(near.part[k] == pi) & (near.leaf[k] == li)]
            r = s[m]
            leaf = ps[pi].leaves[li]
            point = np.vstack((o[:, r] + near.t[m] * d[:, r], np.ones((1, len(m))))).astype(LD)
            nrm, fine = leaf.normal(point, tol=3e-5)
            nrm = nrm * ps[pi].sign[id(leaf)]
            cos = np.abs((nrm * d[:, r]).sum(0)).astype(float)
            new, ni, nint, nw, alive, sl, _ = interact(leaf.material, d[:, r], nrm, wl[r], index[r], inten[r])
            fair[r[~fine | (cos < 0.01) | (sl > 100)]] = False
            slack[r] *= sl / np.maximum(cos, 0.01)
            d[:, r], index[r], inten[r], wl[r], live[r] = new, ni, nint, nw, alive
            o[:, r] = point[:3] + OFFSET * new
    return fair, slack
