"""C03: life and death of rays.  All scripts of material answers x generation limits x thresholds x batches."""
import itertools
import signal
import numpy as np
import pyrayt
import tinygfx.g3d as cg
from pyrayt import materials as matl
from mc import core, trace

LEVEL = "model_checking"
RULE = ("state = batch of rays between two sheets whose material answers every interaction of every ray from a script; all "
        "scripts over the answer alphabet up to the depth bound, all pairs (and triples) of short scripts as batches of their "
        "own, all generation limits and intensity thresholds of the set; the rows that exist are compared with the "
        "ray-by-ray definition; non-trivial = a row that has to be there")
ASSUMPTIONS = ["generation limits are whole numbers; a limit of 0 means no segment"]

# answer: (new intensity as a function of (old, threshold), direction factor: -1 back, 0 absorbed, +1 through)
ANSWERS = {
    "back": (None, -1), "through": (None, 1), "absorb": (None, 0),
    "half": (lambda i, t: i / 2, -1), "threshold": (lambda i, t: t, -1),
    "below": (lambda i, t: np.nextafter(t, 0), -1), "zero": (lambda i, t: 0.0 * i, -1),
    "dim+absorb": (lambda i, t: np.nextafter(t, 0), 0), "boost": (lambda i, t: 100.0 + i, -1),
    "wave": ("wave", -1), "index": ("index", -1),
}
NAMES = list(ANSWERS)


class Runaway(Exception):
    pass


class Scripted(matl.TracableMaterial):
    def __init__(self, scripts, threshold, default):
        super().__init__()
        self.scripts, self.threshold, self.default = scripts, threshold, default
        self.count = np.zeros(len(scripts), dtype=int)
        self.calls = 0

    def trace(self, surface, rs):
        self.calls += 1
        if self.calls > 5000:
            raise Runaway("the trace does not end")
        ids = np.array(rs.id).astype(int)
        k = self.count[ids]
        self.count[ids] += 1
        names = np.array([self.scripts[i][j] if j < len(self.scripts[i]) else self.default for i, j in zip(ids, k)])
        for name in set(names):
            m = names == name
            f, s = ANSWERS[name]
            x = np.array(rs.rays[1])
            x[:, m] = x[:, m] * s
            rs.rays[1] = x
            if f == "wave":
                w = np.array(rs.wavelength)
                w[m] = w[m] + 0.01
                rs.wavelength = w
            elif f == "index":
                w = np.array(rs.index)
                w[m] = w[m] + 0.25
                rs.index = w
            elif f is not None:
                w = np.array(rs.intensity)
                w[m] = np.array([f(v, self.threshold) for v in w[m]])
                rs.intensity = w
        return rs


def expected(scripts, intensity, wl, threshold, limit, default, aimed):
    """per ray: list of (intensity, wavelength, index, tilt, surface 0/1)"""
    out = []
    for j, script in enumerate(scripts):
        rows, i, w, n, s = [], intensity[j], wl, 1.0, 1 if aimed[j] > 0 else -1
        inside = aimed[j] != 2
        k = 0
        while len(rows) < limit and i >= threshold and s != 0 and inside:
            rows.append((i, w, n, s, 1 if s > 0 else 0))
            name = script[k] if k < len(script) else default
            k += 1
            f, g = ANSWERS[name]
            if f == "wave":
                w = w + 0.01
            elif f == "index":
                n = n + 0.25
            elif f is not None:
                i = f(i, threshold)
            if g == 1:
                inside = False        # leaves through the sheet, nothing behind it
            s = s * g
        out.append(rows)
    return out


class Alarm(Exception):
    pass


def explore(ctx, scripts, limit, threshold, default, start=None, aimed=None):
    n = len(scripts)
    start = np.full(n, 100.0) if start is None else np.array(start, dtype=float)
    aimed = np.ones(n) if aimed is None else np.array(aimed)
    y = np.linspace(-9, 9, n) if n > 1 else np.zeros(n)
    o = np.stack([np.zeros(n), y, np.linspace(3, -4, n) if n > 1 else np.zeros(n)], axis=1)
    d = np.zeros((n, 3))
    d[:, 0] = np.where(aimed > 0, 1, -1)
    d[aimed == 2] = (0, 0, 1)             # parallel to the sheets: a miss from the start
    src = trace.Fixed(o, d, wavelength=0.5, intensity=start)
    m = Scripted(scripts, threshold, default)
    sheets = [cg.XYPlane(30, 30, material=m).rotate_y(90).move_x(x) for x in (-1, 1)]
    tr = pyrayt.RayTracer(src, sheets, rays_per_source=n, generation_limit=limit)
    if threshold != 0.1:
        tr.ray_intensity_threshold = threshold
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(60)
    try:
        df = tr.trace()
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    exp = expected(scripts, start, 0.5, threshold, limit, default, aimed)
    total = sum(len(r) for r in exp)
    ctx.expect(len(set(df.index)) == len(df), "several rows have the same label")
    ctx.nontrivial += total
    ctx.transitions += total
    for r in exp:
        ctx.count(f"{len(r)} segments")
    got = {}
    cols = [df[c].to_numpy(dtype=float) for c in ("id", "generation", "intensity", "wavelength", "index", "x_tilt",
                                                  "surface", "x0", "x1", "y1")]
    for row in zip(*cols):
        if not ctx.expect((row[0], row[1]) not in got, "a ray has two rows in one generation", row=row):
            return
        got[(row[0], row[1])] = row[2:]
    ctx.evaluations += total
    ids = [s.get_id() for s in sheets]
    for j, rows in enumerate(exp):
        for g, (i, w, nn, s, surf) in enumerate(rows):
            r = got.pop((j, g), None)
            if r is None:
                ctx.fail("a segment is missing", ray=j, generation=g, script=scripts[j], want=[i, w, nn, s])
                return
            x0 = 0.0 if g == 0 else (-1.0 if s > 0 else 1.0) + 1e-6 * s
            ok = (abs(r[0] - i) <= 1e-12 * i and abs(r[1] - w) < 1e-12 and abs(r[2] - nn) < 1e-12 and abs(r[3] - s) < 1e-9
                  and int(r[4]) == ids[surf] and abs(r[5] - x0) < 1e-9 and abs(r[6] - (1 if surf else -1)) < 1e-9
                  and abs(r[7] - y[j]) < 1e-9)
            if not ok:
                ctx.fail("a segment has the wrong content", ray=j, generation=g, script=scripts[j],
                         want=[i, w, nn, s, ids[surf], x0], got=r)
                return
    if got:
        (j, g), r = sorted(got.items())[0]
        ctx.fail("a segment of a ray that had ended", ray=j, generation=g, script=scripts[int(j)], got=r,
                 n_bad=len(got))


def everywhere(ctx, dirs, end, limit):
    """rays from the middle of a ball in all directions: back and forth, or one way"""
    d = np.array(dirs, dtype=float)
    d /= np.linalg.norm(d, axis=1)[:, None]
    src = trace.Fixed(np.zeros((len(d), 3)), d, wavelength=0.5)
    ball = cg.Sphere(10, material={"mirror": matl.mirror, "absorb": matl.absorber, "none": matl.BasicRefractor(1.0)}[end])
    df = pyrayt.RayTracer(src, ball, rays_per_source=len(d), generation_limit=limit).trace()
    rows = limit if end == "mirror" else 1
    ctx.nontrivial += len(d) * rows
    ctx.evaluations += len(d) * rows
    if not ctx.expect(len(df) == rows * len(d), "rays of some directions live longer or shorter", n=len(d), got=len(df), want=rows * len(d)):
        return
    want = np.concatenate([d * (-1) ** g for g in range(rows)])
    got = df[["x_tilt", "y_tilt", "z_tilt"]].to_numpy()
    ctx.expect(np.array_equal(df["id"].to_numpy(), np.tile(np.arange(len(d)), rows)), "rows of other rays than were sent out")
    ctx.expect(bool(np.abs(got - want).max() < 1e-9), "rays come back in other directions", n=len(d))


def _alarm(*a):
    raise Alarm("the trace does not end within 60 s")


def run(ctx):
    deep = 5 if ctx.thorough else 4
    limits = [0, 1, 2, 3, 4, 5, 6, 10]
    full = list(core.sequences(NAMES, deep, deep))
    # all scripts in one batch (in every order of magnitude of batch sizes), per limit, threshold and default answer
    chunk = 4000
    for limit, threshold, default in core.product(limits, (0.1, 30.0, 0.0), ("back", "absorb", "half")):
        for lo in range(0, len(full), chunk):
            if default != "back" and (threshold, lo) != (0.1, 0) and not ctx.thorough:
                continue
            if limit in (3, 5) and threshold != 0.1 and not ctx.thorough:
                continue
            data = {"scripts": f"all of length {deep}, part {lo // chunk}", "limit": limit, "threshold": threshold,
                    "then": default}
            if ctx.selected(data):
                with ctx.case(data):
                    explore(ctx, full[lo:lo + chunk], limit, threshold, default)
    # batches of one, two, three rays
    short = list(core.sequences(NAMES, 2, 1)) if ctx.thorough else list(core.sequences(
        ["back", "through", "absorb", "half", "threshold", "below", "dim+absorb"], 2, 1))
    for limit in (1, 2, 3):
        for a in short:
            data = {"scripts": [a], "limit": limit}
            if ctx.selected(data):
                with ctx.case(data):
                    explore(ctx, [a], limit, 0.1, "absorb")
    for a, b in itertools.product(short, repeat=2):
        data = {"scripts": [a, b]}
        if ctx.selected(data):
            with ctx.case(data):
                explore(ctx, [a, b], 3, 0.1, "back" if len(a) < len(b) else "absorb")
    for t in itertools.product(["through", "absorb", "below", "threshold", "back"], repeat=3):
        for limit in (1, 2, 3):
            data = {"scripts": [[x] for x in t], "limit": limit}
            if ctx.selected(data):
                with ctx.case(data):
                    explore(ctx, [[x] for x in t], limit, 0.1, "back")
    # what rays are emitted with: below, at, above the threshold; aimed at nothing; no rays at all
    for t in itertools.product((100.0, 0.1, 0.09999, 0.0), repeat=3):
        for aim in itertools.product((1, -1, 2), repeat=3):
            data = {"emitted": t, "aim": aim}
            if ctx.selected(data):
                with ctx.case(data):
                    explore(ctx, [["back"], ["half"], ["back", "absorb"]], 3, 0.1, "back", t, aim)
    # long lives, next to short ones
    for limit in (31, 32, 33, 64, 65, 99, 100, 101, 127, 128, 129, 256, 257) + ((500, 1000, 1025, 2000) if ctx.thorough else ()):
        for end in ("absorb", "through", "below", "back"):
            lives = [0, 1, 30, 31, 32, 33, 63, 64, 98, 99, limit - 2, limit - 1, limit, limit + 1]
            data = {"long lives": limit, "end": end}
            if ctx.selected(data):
                with ctx.case(data, steps=limit):
                    explore(ctx, [["back"] * k + [end] for k in lives], limit, 0.1, "back")
    # power that dwindles over many generations
    for limit, start in itertools.product((40, 64, 150), (1e5, 1e12, 1e30)):
        data = {"dwindling": start, "limit": limit}
        if ctx.selected(data):
            with ctx.case(data, steps=limit):
                explore(ctx, [["half"], ["back"], ["half", "boost"], []], limit, 0.1, "half", [start, start * 2, 0.2, start / 3])
    # many rays
    for n in (255, 256, 257, 1000, 1023, 1024, 1025, 4096, 4097, 10001):
        data = {"rays": n}
        if ctx.selected(data):
            with ctx.case(data, steps=4):
                explore(ctx, [full[(7 * i) % len(full)] for i in range(n)], 4, 0.1, "back")
    # one ray that outlives many others
    for n, at, lives in itertools.product((1001, 10007, 20011, 50021), ("first", "middle", "last"), (1, 3)):
        data = {"survivor": at, "rays": n, "lives": lives}
        if ctx.selected(data):
            with ctx.case(data, steps=4):
                k = {"first": 0, "middle": n // 2, "last": n - 1}[at]
                explore(ctx, [["back"] * (lives if i == k else 0) + [("absorb", "through", "below")[i % 3]] for i in range(n)], 6, 0.1, "back")
    # rays of every direction live equally long
    dirs = [d for d in itertools.product((-2, -1, 0, 1, 2), repeat=3) if any(d)] + [
        (0.6, -0.8, 0), (1e-9, 1, -1), (1, -1 + 1e-9, 0), (-3, 1, 2), (1e-200, 0, 1)]
    dirs += [tuple(np.roll([s * np.cos(a), -s * np.sin(a), 0], k)) for a in np.radians((30, 45, 60)) for s in (1, -1) for k in range(3)]
    for end, limit in itertools.product(("mirror", "absorb", "none"), (1, 2, 7)):
        for group in [dirs, dirs[::-1]] + [[d] for d in dirs]:
            data = {"directions": group[:2], "n": len(group), "end": end, "limit": limit}
            if ctx.selected(data):
                with ctx.case(data, steps=limit):
                    everywhere(ctx, group, end, limit)
    for limit in (0, 1, 5):
        data = {"no rays": limit}
        if ctx.selected(data):
            with ctx.case(data):
                explore(ctx, [], limit, 0.1, "back")
