"""Reference geometry, independent of the code under test: extended precision, analytic, one formula per shape.

A leaf is a convex body (or the zero-thickness sheet "plane") in object space, plus a pose that is kept as a matrix
and its inverse, both composed operation by operation (no numerical inversion).  A CSG tree is a nested tuple.
"""
import numpy as np

LD = np.longdouble
PI = LD("3.14159265358979323846264338327950288")
INF = LD(np.inf)


# ---------------------------------------------------------------------------------------------- transforms
def _cs(deg):
    """cos and sin of an angle in degrees, exact for multiples of 90"""
    deg = LD(deg)
    q = deg / 90
    if q == np.round(q):
        return [(LD(1), LD(0)), (LD(0), LD(1)), (LD(-1), LD(0)), (LD(0), LD(-1))][int(np.round(q)) % 4]
    a = deg * PI / 180
    return np.cos(a), np.sin(a)


def op_matrix(op):
    """(matrix, inverse) of one operation, in extended precision"""
    m = np.eye(4, dtype=LD)
    i = np.eye(4, dtype=LD)
    kind = op[0]
    if kind == "move":
        m[:3, 3] = [LD(v) for v in op[1:4]]
        i[:3, 3] = -m[:3, 3]
    elif kind == "scale":
        for k in range(3):
            m[k, k] = LD(op[1 + k])
            i[k, k] = 1 / LD(op[1 + k])
    elif kind in ("rx", "ry", "rz"):
        c, s = _cs(op[1])
        a, b = {"rx": (1, 2), "ry": (2, 0), "rz": (0, 1)}[kind]
        m[a, a] = m[b, b] = c
        m[a, b], m[b, a] = -s, s
        i = m.T.copy()
    elif kind == "tf":
        m = np.array(op[1], dtype=LD)
        i = inverse(m)
    else:
        raise ValueError(op)
    return m, i


def inverse(m):
    """Gauss-Jordan in extended precision"""
    n = m.shape[0]
    a = np.hstack((m.astype(LD), np.eye(n, dtype=LD)))
    for c in range(n):
        p = c + int(np.argmax(np.abs(a[c:, c])))
        a[[c, p]] = a[[p, c]]
        a[c] /= a[c, c]
        for r in range(n):
            if r != c:
                a[r] -= a[r, c] * a[c]
    return a[:, n:]


def mm(a, b):
    """matrix product in extended precision (np.matmul has no fast path, but the arrays are small)"""
    return (a[:, :, None] * b[None, :, :]).sum(axis=1) if b.shape[1] <= 8 else np.stack(
        [sum(a[r, k] * b[k] for k in range(a.shape[1])) for r in range(a.shape[0])])


def apply_op(obj, op):
    """the same operation on a real object"""
    kind = op[0]
    if kind == "move":
        return obj.move(*op[1:4])
    if kind == "scale":
        return obj.scale(*op[1:4])
    if kind == "tf":
        return obj.transform(np.array(op[1], dtype=float))
    return getattr(obj, "rotate_" + kind[1])(op[1])


class Pose:
    def __init__(self, ops=()):
        self.m = np.eye(4, dtype=LD)
        self.i = np.eye(4, dtype=LD)
        for op in ops:
            self.apply(op)

    def apply(self, op):
        m, i = op_matrix(op)
        self.m = mm(m, self.m)
        self.i = mm(self.i, i)
        return self


# ---------------------------------------------------------------------------------------------- bodies
def _quadratic_span(a, b2, c):
    """interval where a t^2 + 2 b2 t + c <= 0 (a >= 0), as (t0, t1, nonempty)"""
    tiny = a == 0
    asafe = np.where(tiny, 1, a)
    disc = b2 * b2 - a * c
    root = np.sqrt(np.maximum(disc, 0))
    q = -(b2 + np.where(b2 >= 0, root, -root))
    qsafe = np.where(q == 0, 1, q)
    r1 = q / asafe
    r2 = np.where(q == 0, 0, c / qsafe)
    lo, hi = np.minimum(r1, r2), np.maximum(r1, r2)
    ok = disc >= 0
    # linear: 2 b2 t + c <= 0
    b2safe = np.where(b2 == 0, 1, b2)
    t = -c / (2 * b2safe)
    lin_lo = np.where(b2 > 0, -INF, np.where(b2 < 0, t, np.where(c <= 0, -INF, INF)))
    lin_hi = np.where(b2 > 0, t, np.where(b2 < 0, INF, np.where(c <= 0, INF, -INF)))
    lo, hi = np.where(tiny, lin_lo, lo), np.where(tiny, lin_hi, hi)
    ok = np.where(tiny, lin_lo <= lin_hi, ok)
    return np.where(ok, lo, INF), np.where(ok, hi, -INF)


def _slab(o, d, lo, hi):
    zero = d == 0
    ds = np.where(zero, 1, d)
    t0, t1 = (lo - o) / ds, (hi - o) / ds
    a, b = np.minimum(t0, t1), np.maximum(t0, t1)
    inside = (o >= lo) & (o <= hi)
    return np.where(zero, np.where(inside, -INF, INF), a), np.where(zero, np.where(inside, INF, -INF), b)


class Leaf:
    """kind: sphere r | cylinder r z0 z1 | paraboloid f h | cuboid (min)(max) | plane w l"""

    def __init__(self, kind, params, ops=(), material=None, real=None):
        self.kind, self.params, self.material, self.real = kind, params, material, real
        self.pose = Pose(ops)
        self.flip = 1

    @property
    def solid(self):
        return self.kind != "plane"

    def local(self, rays):
        o = mm(self.pose.i, np.asarray(rays[0], dtype=LD))
        d = mm(self.pose.i, np.asarray(rays[1], dtype=LD))
        return o, d

    def span(self, rays):
        """(t0, t1) of the line parameter inside the body; t0 > t1 where the line misses it"""
        o, d = self.local(rays)
        k, p = self.kind, self.params
        if k == "sphere":
            r = LD(p[0])
            a = (d[:3] ** 2).sum(0)
            tc = -(o[:3] * d[:3]).sum(0) / a
            x = np.stack((o[1] * d[2] - o[2] * d[1], o[2] * d[0] - o[0] * d[2], o[0] * d[1] - o[1] * d[0]))
            gap = r * r * a - (x ** 2).sum(0)      # |d|^2 (r^2 - distance^2)
            h = np.sqrt(np.maximum(gap, 0)) / a
            return np.where(gap >= 0, tc - h, INF), np.where(gap >= 0, tc + h, -INF)
        if k == "cylinder":
            r, z0, z1 = (LD(v) for v in p)
            a = d[0] ** 2 + d[1] ** 2
            lo, hi = _quadratic_span(a, o[0] * d[0] + o[1] * d[1], o[0] ** 2 + o[1] ** 2 - r * r)
            s0, s1 = _slab(o[2], d[2], z0, z1)
            return np.maximum(lo, s0), np.minimum(hi, s1)
        if k == "paraboloid":
            f, h = (LD(v) for v in p)
            a = d[0] ** 2 + d[1] ** 2
            b2 = o[0] * d[0] + o[1] * d[1] - 2 * f * d[2]
            lo, hi = _quadratic_span(a, b2, o[0] ** 2 + o[1] ** 2 - 4 * f * o[2])
            s0, s1 = _slab(o[2], d[2], -INF, h)
            return np.maximum(lo, s0), np.minimum(hi, s1)
        if k == "cuboid":
            lo, hi = np.full(o.shape[1], -INF), np.full(o.shape[1], INF)
            for ax in range(3):
                a, b = _slab(o[ax], d[ax], LD(min(p[0][ax], p[1][ax])), LD(max(p[0][ax], p[1][ax])))
                lo, hi = np.maximum(lo, a), np.minimum(hi, b)
            return lo, hi
        if k == "plane":
            w, l = (LD(v) for v in p)
            zero = d[2] == 0
            t = -o[2] / np.where(zero, 1, d[2])
            x, y = o[0] + t * d[0], o[1] + t * d[1]
            ok = ~zero & (np.abs(x) <= w / 2) & (np.abs(y) <= l / 2)
            return np.where(ok, t, INF), np.where(ok, t, -INF)
        raise ValueError(k)

    def edge_risk(self, rays, tol):
        """rays for which hit-or-miss of this leaf hangs on rounding: tangents, edges, lines in a face"""
        o, d = self.local(rays)
        n = np.sqrt((d[:3] ** 2).sum(0))
        if self.kind == "plane":
            w, l = (LD(v) for v in self.params)
            zero = np.abs(d[2]) <= 1e-7 * n
            t = -o[2] / np.where(zero, 1, d[2])
            # where rounding of the start shows in the distance
            noise = 4e-16 * (1 + np.abs(o[:3]).max(axis=0) + np.abs(self.pose.i[2, 3])
                             + sum(np.abs(self.pose.i[2, c] * np.asarray(rays[0][c], dtype=LD)) for c in range(3)))
            zero |= noise > 1e-8 * (1 + np.abs(t)) * np.abs(d[2])
            x, y = np.abs(o[0] + t * d[0]) - w / 2, np.abs(o[1] + t * d[1]) - l / 2
            near = ((np.abs(x) < tol * (1 + w)) & (y < tol * (1 + l))) | ((np.abs(y) < tol * (1 + l)) & (x < tol * (1 + w)))
            return near | zero
        # a slightly grown and a slightly shrunk body must agree on whether, and roughly how deeply, they are hit
        t0, t1 = self.grown(1 + LD(tol)).span(rays)
        s0, s1 = self.grown(1 - LD(tol)).span(rays)
        return (t0 <= t1) != (s0 <= s1)

    def grown(self, f):
        """the body with every dimension scaled about its own centre"""
        p = self.params
        if self.kind == "sphere":
            q = (LD(p[0]) * f,)
        elif self.kind == "cylinder":
            mid, half = (LD(p[1]) + LD(p[2])) / 2, (LD(p[2]) - LD(p[1])) / 2 * f
            q = (LD(p[0]) * f, mid - half, mid + half)
        elif self.kind == "paraboloid":
            # lower or raise the vertex by a shift of the pose
            e = (f - 1) * LD(p[1])
            g = Leaf("paraboloid", (p[0], LD(p[1]) + 2 * e))
            g.pose.m = mm(self.pose.m, op_matrix(("move", 0, 0, -e))[0])
            g.pose.i = mm(op_matrix(("move", 0, 0, -e))[1], self.pose.i)
            return g
        elif self.kind == "cuboid":
            lo = [min(LD(a), LD(b)) for a, b in zip(*p)]
            hi = [max(LD(a), LD(b)) for a, b in zip(*p)]
            q = ([(a + b) / 2 - (b - a) / 2 * f for a, b in zip(lo, hi)],
                 [(a + b) / 2 + (b - a) / 2 * f for a, b in zip(lo, hi)])
        else:
            q = p
        g = Leaf(self.kind, q)
        g.pose = self.pose
        return g

    def depth(self, points):
        """> 0 inside, < 0 outside, relative object space measure; points 3xn or 4xn world"""
        pts = np.asarray(points, dtype=LD)
        if pts.shape[0] == 3:
            pts = np.vstack((pts, np.ones((1, pts.shape[1]), dtype=LD)))
        x, y, z = mm(self.pose.i, pts)[:3]
        k, p = self.kind, self.params
        if k == "sphere":
            return LD(p[0]) - np.sqrt(x * x + y * y + z * z)
        if k == "cylinder":
            return np.minimum(LD(p[0]) - np.hypot(x, y), np.minimum(z - LD(p[1]), LD(p[2]) - z))
        if k == "paraboloid":
            return np.minimum(z - (x * x + y * y) / (4 * LD(p[0])), LD(p[1]) - z)
        if k == "cuboid":
            out = np.full(x.shape, INF)
            for ax, v in enumerate((x, y, z)):
                out = np.minimum(out, np.minimum(v - min(p[0][ax], p[1][ax]), max(p[0][ax], p[1][ax]) - v))
            return out
        return np.full(x.shape, -INF)

    def normal(self, points, tol=1e-7):
        """(outward unit world normals 3xn, ok): ok is False near edges, where two faces meet"""
        pts = np.asarray(points, dtype=LD)
        x, y, z = mm(self.pose.i, pts)[:3]
        k, p = self.kind, self.params
        n = np.zeros((3, x.shape[0]), dtype=LD)
        ok = np.ones(x.shape[0], dtype=bool)
        if k == "sphere":
            n[:] = np.stack((x, y, z))
        elif k == "cylinder":
            side = np.abs(np.hypot(x, y) - LD(p[0]))
            bot, top = np.abs(z - LD(p[1])), np.abs(z - LD(p[2]))
            which = np.argmin(np.stack((side, bot, top)), axis=0)
            n[0], n[1] = np.where(which == 0, x, 0), np.where(which == 0, y, 0)
            n[2] = np.where(which == 1, -1, np.where(which == 2, 1, 0))
            second = np.sort(np.stack((side, bot, top)), axis=0)[1]
            ok = second > tol * (1 + max(abs(LD(v)) for v in p))
        elif k == "paraboloid":
            f, h = LD(p[0]), LD(p[1])
            top = np.abs(z - h)
            side = np.abs(z - (x * x + y * y) / (4 * f))
            cap = top < side
            n[0], n[1], n[2] = np.where(cap, 0, x), np.where(cap, 0, y), np.where(cap, 1, -2 * f)
            ok = np.maximum(top, side) > tol * (1 + h)
        elif k == "cuboid":
            dist, dirs = [], []
            for ax, v in enumerate((x, y, z)):
                for s, bound in ((-1, min(p[0][ax], p[1][ax])), (1, max(p[0][ax], p[1][ax]))):
                    dist.append(np.abs(v - bound))
                    dirs.append((ax, s))
            dist = np.stack(dist)
            which = np.argmin(dist, axis=0)
            for w, (ax, s) in enumerate(dirs):
                n[ax] = np.where(which == w, s, n[ax])
            ok = np.sort(dist, axis=0)[1] > tol * (1 + max(abs(LD(v)) for c in p for v in c))
        else:
            n[2] = 1
        # planes transform with the inverse transpose
        w = np.stack([sum(self.pose.i[r, c] * n[r] for r in range(3)) for c in range(3)])
        return w / np.sqrt((w ** 2).sum(0)), ok


# ---------------------------------------------------------------------------------------------- CSG trees
# tree = Leaf | (op, left, right) with op in "union", "intersect", "difference"
def leaves(tree):
    return [tree] if isinstance(tree, Leaf) else leaves(tree[1]) + leaves(tree[2])


def evaluate(tree, inside):
    """boolean value of the tree; inside maps id(leaf) to arrays"""
    if isinstance(tree, Leaf):
        return inside[id(tree)]
    a, b = evaluate(tree[1], inside), evaluate(tree[2], inside)
    if tree[0] == "union":
        return a | b
    if tree[0] == "intersect":
        return a & b
    return a & ~b


class Lines:
    """Boundaries of a tree (or several) along a bundle of lines.

    times[e, n]   sorted event parameters (inf: no event), e over all leaf boundaries
    owner[e, n]   index of the leaf
    change[e, n]  number of composite hits at the event, other leaves as they are there: 0 or 1 (solid), 0 or 2 (sheet)
    before/after[e, n]  is the composite solid just before/after the event
    tied[e, n]    another event lies within eps, so change of the single event is not defined
    """

    def __init__(self, tree, rays, eps=1e-7):
        self.tree, self.leaves = tree, leaves(tree)
        n = rays.shape[-1]
        spans = [l.span(rays) for l in self.leaves]
        ts, ow = [], []
        for k, (a, b) in enumerate(spans):
            ok = a <= b
            ts += [np.where(ok, a, INF), np.where(ok, b, INF)]
            ow += [np.full(n, k), np.full(n, k)]
        ts, ow = np.stack(ts), np.stack(ow)
        order = np.argsort(ts, axis=0, kind="stable")
        self.times = np.take_along_axis(ts, order, 0)
        self.owner = np.take_along_axis(ow, order, 0)
        finite = np.isfinite(self.times)
        E = self.times.shape[0]
        mid = [self.times[0] - 1] + [(self.times[e] + self.times[e + 1]) / 2 for e in range(E - 1)] + [
            self.times[-1] + 1]
        inside_gap = []
        for g in range(E + 1):
            m = mid[g]
            inside_gap.append({id(l): (spans[k][0] < m) & (m < spans[k][1]) & np.isfinite(m)
                               for k, l in enumerate(self.leaves)})
        self.gap = np.stack([evaluate(tree, i) for i in inside_gap])      # composite membership in each gap
        self.before, self.after = self.gap[:-1], self.gap[1:]
        self.change = np.zeros(self.times.shape, dtype=int)
        self.toggle_out = np.zeros(self.times.shape, dtype=int)  # +1: leaf in makes the tree in; -1: the opposite
        for e in range(E):
            for k, l in enumerate(self.leaves):
                here = finite[e] & (self.owner[e] == k)
                if not here.any():
                    continue
                base = dict(inside_gap[e])
                if not l.solid:
                    pass
                base[id(l)] = np.zeros(n, dtype=bool)
                off = evaluate(tree, base)
                base[id(l)] = np.ones(n, dtype=bool)
                on = evaluate(tree, base)
                self.change[e] = np.where(here & (on != off), 1, self.change[e])
                self.toggle_out[e] = np.where(here, on.astype(int) - off.astype(int), self.toggle_out[e])
        scale = 1 + np.abs(np.where(finite, self.times, 0))
        close = np.zeros(self.times.shape, dtype=bool)
        for e in range(E - 1):
            c = finite[e] & finite[e + 1] & (np.abs(np.where(finite[e + 1], self.times[e + 1], 0)
                                                    - np.where(finite[e], self.times[e], 0)) < eps * scale[e])
            sheet_pair = (self.owner[e] == self.owner[e + 1]) & np.array(
                [not l.solid for l in self.leaves])[self.owner[e]]
            c = c & ~sheet_pair
            close[e] |= c
            close[e + 1] |= c
        self.tied = close
        self.finite = finite

    def risky(self, rays, tol=1e-6):
        """lines for which some leaf is touched tangentially or along an edge"""
        r = np.zeros(rays.shape[-1], dtype=bool)
        for l in self.leaves:
            r |= l.edge_risk(rays, tol)
        return r

    def expected(self):
        """per line, list of (t, owner) of the composite hits - only meaningful where nothing is tied"""
        return np.where((self.change > 0) & self.finite, self.times, INF)
