"""C25: lamps.  The random numbers are the nondeterminism: the checker answers every draw from an enumerated lattice.
Static lamps: every sequence of emissions, moves, edits and interference up to a depth."""
import contextlib
import itertools
import numpy as np
import pyrayt.components as pc
from mc import core, oracle

LEVEL = "model_checking"
RULE = ("state = lamp (width, length, maximum angle, wavelength, pose) with every combination of lattice answers to its random draws, "
        "ends of the unit interval included; and static lamps under every sequence of emit(n) / move / wavelength / overwrite the "
        "returned set / another lamp emits, up to the depth; and two lamps and two static lamps under every sequence of emissions with the real generator; "
        "non-trivial = an emitted ray compared")
ASSUMPTIONS = ["the lamp draws its numbers through numpy.random (of a lamp that does not only the invariants are checked)",
               "any measure-preserving assignment of the four numbers to the four coordinates is accepted"]


class Answers:
    """stands in for numpy's uniform generators: the k-th number drawn for ray i is table[k, i]"""

    def __init__(self, table):
        self.table = np.asarray(table, dtype=float)
        self.used = 0
        self.odd = False

    def draw(self, size=None):
        n = self.table.shape[1]
        shape = () if size is None else tuple(np.atleast_1d(size).astype(int))
        if shape.count(n) != 1:
            self.odd = True
            return np.full(shape, 0.5)[()]
        axis = shape.index(n)
        k = int(np.prod(shape)) // n
        rows = self.table[[j % len(self.table) for j in range(self.used, self.used + k)]]
        self.used += k
        others = shape[:axis] + shape[axis + 1:]
        return np.moveaxis(rows.reshape(others + (n,)), -1, axis).copy()

    def rand(self, *shape):
        return self.draw(shape or None)

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (np.asarray(high) - low) * self.draw(size)

    def random(self, size=None, *a, **k):
        return self.draw(size)

    random_sample = random


@contextlib.contextmanager
def answering(table):
    a = Answers(table)
    names = {n: a.random for n in ("random_sample", "random", "ranf", "sample")}
    names.update(rand=a.rand, uniform=a.uniform, default_rng=lambda *x, **k: a, RandomState=lambda *x, **k: a)
    old = {n: getattr(np.random, n) for n in names if hasattr(np.random, n)}
    for n in old:
        setattr(np.random, n, names[n])
    try:
        yield a
    finally:
        for n, f in old.items():
            setattr(np.random, n, f)


def local(rs, pose):
    """positions and unit directions in the frame of the lamp"""
    i = pose.i.astype(float)
    rays = np.asarray(rs.rays)
    p = i[:3, :3] @ rays[0, :3] + i[:3, 3:]
    d = i[:3, :3] @ rays[1, :3]
    return p, d / np.linalg.norm(d, axis=0)


def invariants(ctx, rs, n, w, l, a, wave, pose, what):
    """what holds of every lamp ray; returns the lattice coordinates (y, z, solid angle, azimuth) in [0, 1]"""
    if not ctx.expect(np.array(rs).shape[1] == n and rs.n_rays == n, f"{what}: wrong number of rays", got=np.array(rs).shape):
        return None
    rays = np.asarray(rs.rays)
    p, d = local(rs, pose)
    mag = 1 + np.abs(pose.m.astype(float)).max() * np.abs(pose.i.astype(float)).max()
    eps = 1e-13 * mag
    ctx.nontrivial += n
    A = a * np.pi / 180
    ctx.expect(bool(np.all(np.isfinite(rays))), f"{what}: rays that are not finite", n=n)
    ctx.expect(bool(np.all(np.abs((rays[1, :3] ** 2).sum(0) - 1) < 1e-12)), f"{what}: directions are not unit vectors")
    ctx.expect(bool(np.all(rays[0, 3] == 1) and np.all(rays[1, 3] == 0)), f"{what}: wrong homogeneous components")
    ctx.expect(bool(np.all(np.abs(p[0]) <= eps)), f"{what}: starts off the plane of the lamp", n=n, got=p[:, :4])
    ctx.expect(bool(np.all(np.abs(p[1]) <= w / 2 + eps)), f"{what}: starts outside the width", n=n, got=np.abs(p[1]).max(), want=w / 2)
    ctx.expect(bool(np.all(np.abs(p[2]) <= l / 2 + eps)), f"{what}: starts outside the length", n=n, got=np.abs(p[2]).max(), want=l / 2)
    rho = np.hypot(d[1], d[2])
    ang = np.arctan2(rho, d[0])
    ctx.expect(bool(np.all(ang <= A + 3e-8 + eps)), f"{what}: leaves at more than the maximum angle", n=n, got=ang.max(), want=A)
    ctx.expect(bool(np.all(np.abs(np.asarray(rs.intensity) - 100 * d[0]) < 1e-9 + 100 * eps)), f"{what}: intensity is not 100 cos(angle)",
               n=n, got=np.asarray(rs.intensity)[:5], want=100 * d[0][:5])
    for f, want in (("wavelength", wave), ("index", 1), ("generation", 0), ("id", np.arange(n))):
        ctx.expect(bool(np.all(np.asarray(getattr(rs, f)) == want)), f"{what}: wrong {f}", got=np.asarray(getattr(rs, f))[:5])
    half = np.zeros(n) + 0.5
    c = half if A == 0 else (2 * np.sin(ang / 2) ** 2) / (2 * np.sin(A / 2) ** 2)
    return np.stack((p[1] / w + 0.5 if w else half, p[2] / l + 0.5 if l else half, c, (np.arctan2(d[2], d[1]) / (2 * np.pi)) % 1))


def lattice(m, k=4):
    return (np.array(list(itertools.product(range(m), repeat=k))).T + 0.5) / m


def uniform(ctx, q, m, used, what, dof):
    """each cell of the m^4 lattice was hit once, in its middle"""
    n = q.shape[1]
    cell = np.floor(q * m)
    off = np.abs(q * m - cell - 0.5)
    # azimuths may start anywhere
    shift = (q[3] * m) % 1
    shift = shift - np.round(shift * 2) / 2
    ctx.expect(bool(np.all(off[:3][list(dof)] < 1e-4)), f"{what}: equal steps of the random numbers are not equal steps of area or solid "
               "angle", n=n, worst=off[:3].max(axis=1))
    ctx.expect(2 not in dof or bool(np.all(np.abs(shift) < 1e-5)), f"{what}: azimuths are not spread evenly", n=n, worst=np.abs(shift).max())
    keep = list(dof) + [3] * (2 in dof)
    az = np.floor(q[3] * m + 0.25).astype(int) % m
    cells = np.vstack([cell[list(dof)].astype(int)] + [az] * (2 in dof) + [0 * az])
    k, c = np.unique(cells, axis=1, return_counts=True)
    want = n // m ** len(keep)
    ctx.expect(k.shape[1] == m ** len(keep) and bool(np.all(c == want)), f"{what}: the random numbers do not fill area and cone uniformly",
               n=n, cells=k.shape[1], expected=m ** len(keep), counts=[int(c.min()), int(c.max())])


def loose(ctx, q, what):
    """a lamp with its own way of drawing: only gross deviations from uniformity are judged"""
    n = q.shape[1]
    box = (np.floor(q * 2).clip(0, 1).T @ [1, 2, 4, 8]).astype(int)
    c = np.bincount(box, minlength=16)
    s = np.sqrt(n / 16)
    ctx.expect(bool(np.all(np.abs(c - n / 16) < 8 * s)), f"{what}: not uniform over area and cone", n=n, counts=c)


POSES = [[], [["move", 2, -1, 0.5], ["rz", 35]], [["rx", 90], ["ry", -70], ["move", -40, 0, 3]],
         [["scale", 2, 0.5, 3], ["rz", 200]], [["scale", 3, 3, 3], ["ry", 180]]]
ENDS = [0.0, 5e-324, 1e-300, 2.0 ** -53, 1e-9, 0.25, 0.5, 0.75, 1 - 1e-9, 1 - 2.0 ** -53]


def make(cls, w, l, a, wave, k):
    if a == 90 and wave == 0.633 and k % 2:
        return cls(w, l)
    if k % 3 == 0:
        return cls(w, l, a, wave)
    return cls(length=l, width=w, max_angle=a, wavelength=wave) if k % 3 == 1 else cls(w, l, max_angle=a, wavelength=wave)


def lamp(ctx, cls, w, l, a, wave, pose_ops, k, m):
    src = make(cls, w, l, a, wave, k)
    pose = oracle.Pose()
    for op in pose_ops:
        oracle.apply_op(src, op)
        pose.apply(op)
    what = "lamp" if cls is pc.Lamp else "static lamp"
    dof = [i for i, v in enumerate((w, l, a)) if v]
    for turn in range(3):
        base = lattice(m + turn)
        if turn == 1:      # the same numbers in another order
            base = base[[2, 3, 1, 0]][:, ::-1]
        elif turn == 2:
            base = base[:, np.argsort((np.arange(base.shape[1]) * 7919) % 10007, kind="stable")]
        with answering(base) as ans:
            rs = src.generate_rays(base.shape[1])
        q = invariants(ctx, rs, base.shape[1], w, l, a, wave, pose, what)
        if q is None:
            return
        if ans.used == 4 and not ans.odd:
            uniform(ctx, q, m + turn, ans.used, what, dof)
            ctx.count("lattice")
        else:
            ctx.exhaustive = False
            ctx.count("own generator")
            np.random.seed(12345)
            rs = make(cls, w, l, a, wave, k).generate_rays(20000)
            q = invariants(ctx, rs, 20000, w, l, a, wave, oracle.Pose(), what)
            if q is not None and len(dof) == 3:
                loose(ctx, q, what)
            return
    # the ends of the interval
    ends = np.array(list(itertools.product(ENDS, ENDS[::3] + ENDS[-1:], ENDS, ENDS[::3] + ENDS[-1:]))).T
    for rows in ([0, 1, 2, 3], [2, 3, 0, 1], [1, 0, 3, 2]):
        src = make(cls, w, l, a, wave, k)
        for op in pose_ops:
            oracle.apply_op(src, op)
        with answering(ends[rows]):
            rs = src.generate_rays(ends.shape[1])
        invariants(ctx, rs, ends.shape[1], w, l, a, wave, pose, what + " at the ends of the random interval")
    for n in (1, 2, 3, 7):
        rs = src.generate_rays(n)
        invariants(ctx, rs, n, w, l, a, wave, pose, what)


# -- static lamps ---------------------------------------------------------------------------------------------
ALPHABET = ["emit 3", "emit 1", "emit 4", "move", "turn", "stretch", "wavelength", "spoil", "other 3", "lamp", "spoil other"]


def spoil(rs):
    for f in ("generation", "intensity", "wavelength", "index", "id"):
        setattr(rs, f, 7.25)
    rs.rays[0] = 3.5
    rs.rays[1] = -1.5


class Static:
    def __init__(self, w, l, a, wave):
        self.args = w, l, a
        self.src, self.wave, self.pose = pc.StaticLamp(w, l, a, wavelength=wave), wave, oracle.Pose()
        self.pattern, self.kept = {}, []

    def apply(self, op):
        oracle.apply_op(self.src, op)
        self.pose.apply(op)

    def emit(self, ctx, n):
        rs = self.src.generate_rays(n)
        q = invariants(ctx, rs, n, *self.args, self.wave, self.pose, "static lamp")
        if q is None:
            return
        p, d = local(rs, self.pose)
        key = np.vstack((p, d, np.asarray(rs.intensity).reshape(1, -1) / 100))
        if n in self.pattern:
            mag = 1 + np.abs(self.pose.m.astype(float)).max() * np.abs(self.pose.i.astype(float)).max()
            ctx.expect(bool(np.all(np.abs(key - self.pattern[n]) < 1e-12 * mag)), "a static lamp emits another pattern than before",
                       n=n, got=key[:, :3], want=self.pattern[n][:, :3])
        else:
            self.pattern[n] = key
        self.kept.append((rs, np.array(rs)))


def history(ctx, seq):
    one, two = Static(1.0, 2.0, 50, 0.5), Static(0.01, 0.02, 5, 0.6)
    free = pc.Lamp(3, 3, 80)
    for k, op in enumerate(seq):
        if op.startswith("emit"):
            one.emit(ctx, int(op[5:]))
        elif op == "move":
            one.apply(["move", 2, -1, 0.5])
        elif op == "turn":
            one.apply(["rz", 35])
        elif op == "stretch":
            one.apply(["scale", 1, 2, 0.5])
        elif op == "wavelength":
            one.wave = one.src.wavelength = (0.7, 0.45, 1.1)[k % 3]
        elif op == "spoil":
            for rs, _ in one.kept:
                spoil(rs)
            one.kept = []
        elif op == "other 3":
            two.emit(ctx, 3)
        elif op == "lamp":
            invariants(ctx, free.generate_rays(3), 3, 3, 3, 80, 0.633, oracle.Pose(), "lamp")
        elif op == "spoil other":
            for rs, _ in two.kept:
                spoil(rs)
            two.kept = []
            spoil(free.generate_rays(3))
    one.emit(ctx, 3)
    two.emit(ctx, 3)
    one.emit(ctx, 3)
    one.emit(ctx, 4)
    for rs, was in one.kept + two.kept:
        ctx.expect(np.array_equal(np.array(rs), was), "a set a static lamp had emitted was changed later")


# -- fresh numbers ----------------------------------------------------------------------------------------------
def fresh(ctx, seq, w, l, a):
    """two lamps with the same parameters: each emission has rays of its own, whatever came before"""
    lamps = [pc.Lamp(w, l, a), pc.Lamp(w, l, a), pc.StaticLamp(w, l, a), pc.StaticLamp(w, l, a)]
    seen = {}
    for k, op in enumerate(seq):
        who, n = op
        rs = lamps[who].generate_rays(n)
        rays = np.array(rs)[:8]
        key = ("static", who, n) if who > 1 else ("call", k)
        if key in seen:
            ctx.expect(np.array_equal(seen[key], rays), "a static lamp emits another pattern than before", n=n)
            continue
        for old, was in seen.items():
            m = min(n, was.shape[1])
            same = [np.all(np.abs(was[:, i:i + 1] - rays) < 1e-12, axis=0).any() for i in range(was.shape[1])]
            ctx.expect(not any(same), "two emissions have a ray in common", n=m, first=old, second=key, rays=int(np.sum(same)))
        same = np.unique(np.round(rays, 13), axis=1).shape[1]
        ctx.expect(same == n, "one emission has the same ray twice", n=n, different=same)
        seen[key] = rays
        ctx.nontrivial += n


def many(ctx, n, w, l, a):
    """a large emission: within the limits, no ray twice, as evenly spread as independent numbers are; and the static one again"""
    for cls in (pc.Lamp, pc.StaticLamp):
        src = cls(w, l, a)
        rs = src.generate_rays(n)
        q = invariants(ctx, rs, n, w, l, a, 0.633, oracle.Pose(), "lamp with many rays")
        if q is None:
            return
        different = np.unique(np.array(rs)[:7], axis=1).shape[1]
        ctx.expect(different == n, "one emission has the same ray twice", n=n, different=different)
        if n > 400:
            loose(ctx, q, "lamp with many rays")
        if cls is pc.StaticLamp:
            was = np.array(rs)
            src.generate_rays(n // 2)
            ctx.expect(np.array_equal(np.array(src.generate_rays(n)), was), "a static lamp emits another pattern than before", n=n)


def run(ctx):
    t = ctx.thorough
    k = 0
    for w, l, a in core.product((1.0, 0.02, 30.0, 0.0), (1.0, 0.5, 300.0, 0.0), (90, 89.9, 30, 1.0, 1e-2, 0)):
        for wave, (j, pose) in core.product((0.633, 0.45), list(enumerate(POSES))):
            k += 1
            if not t and (wave != 0.633 or j) and k % 3:
                continue
            for cls in (pc.Lamp, pc.StaticLamp):
                data = {"lamp": cls.__name__, "width": w, "length": l, "angle": a, "wavelength": wave, "pose": j}
                if ctx.selected(data):
                    with ctx.case(data, steps=10):
                        lamp(ctx, cls, w, l, a, wave, pose, k, 6 if t else 4)
    for seq in itertools.product(itertools.product(range(4), (1, 3, 8)), repeat=3 if t else 2):
        for w, l, a in ((1.0, 2.0, 50), (0.0, 0.0, 20), (3.0, 0.5, 0)):
            data = {"fresh": seq, "lamp": [w, l, a]}
            if ctx.selected(data):
                with ctx.case(data, steps=len(seq) + 3):
                    fresh(ctx, list(seq) + [(0, 3), (1, 3), (2, 3), (3, 3)], w, l, a)
    for seq in core.sequences(ALPHABET, 5 if t else 4):
        data = {"static": seq}
        if ctx.selected(data):
            with ctx.case(data, steps=4 + len(seq)):
                np.random.seed(len(seq))
                history(ctx, seq)
    # many rays
    for n in (127, 129, 500, 999, 1000, 1001, 1023, 1024, 1025, 4097, 10001, 65537):
        for w, l, a in ((1.0, 2.0, 50), (0.02, 0.5, 90), (30.0, 0.5, 1.0)):
            data = {"rays": n, "lamp": [w, l, a]}
            if ctx.selected(data):
                with ctx.case(data, steps=4):
                    np.random.seed(n)
                    many(ctx, n, w, l, a)
    # many counts on one lamp, forwards and backwards
    for counts in (list(range(1, 60)), list(range(60, 0, -1)), list(range(1, 400, 3)), list(range(300, 0, -2)), list(range(1, 1500 if t else 600)),
                   [2 ** i for i in range(12)] * 2):
        data = {"static counts": counts}
        if ctx.selected(data):
            with ctx.case(data, steps=len(counts)):
                s = Static(1.0, 2.0, 50, 0.5)
                for n in counts + counts[:5] + counts[-5:]:
                    s.emit(ctx, n)
                    s.apply(["rz", 11])
