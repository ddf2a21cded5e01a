"""C24: deterministic sources.  Kinds x parameters x ray counts x sequences of moves, emissions, edits and wavelength changes."""
import numpy as np
import pyrayt
import pyrayt.components as pc
from mc import core, oracle, sizes

LEVEL = "model_checking"
RULE = ("state = source kind and parameters x sequence of operations (move, rotate, scale, change the wavelength, emit, overwrite "
        "everything in an emitted set); after every operation sets of several sizes are emitted and compared with the documented "
        "pattern carried along by the product of the operations; non-trivial = a ray compared")
ASSUMPTIONS = ["a circle starts and ends at the top (z), as built", "a single cone ray leaves along the axis, as built"]

FIELDS = ("generation", "intensity", "wavelength", "index", "id")


def line(s, n):
    y = np.zeros(1) if n == 1 else -s / 2 + s * np.arange(n) / (n - 1)
    return [(0, v, 0) for v in y], [(1, 0, 0)] * n


def circle(s, n):
    t = np.zeros(1) if n == 1 else 2 * np.pi * np.arange(n) / (n - 1)
    return [(0, s / 2 * np.sin(v), s / 2 * np.cos(v)) for v in t], [(1, 0, 0)] * n


def cone(a, n):
    a = a * np.pi / 180
    if n == 1:
        return [(0, 0, 0)], [(np.sign(np.cos(a)), 0, 0)]
    t = 2 * np.pi * np.arange(n) / n
    return [(0, 0, 0)] * n, [(np.cos(a), np.sin(a) * np.sin(v), np.sin(a) * np.cos(v)) for v in t]


def wedge(a, n):
    a = a * np.pi / 180
    t = np.array([-a / 2]) if n == 1 else -a / 2 + a * np.arange(n) / (n - 1)
    return [(0, 0, 0)] * n, [(np.cos(v), np.sin(v), 0) for v in t]


KINDS = {
    "line": (pc.LineOfRays, "spacing", line, [1, 0.3, 0, 25.0, -2.0, 1e-4], 1),
    "circle": (pc.CircleOfRays, "diameter", circle, [1, 0.3, 0, 25.0, -2.0, 1e-4], 1),
    "cone": (pc.ConeOfRays, "cone_angle", cone, [30, 2, 0, 89.0, 120, -15, 1e-3], None),
    "wedge": (pc.WedgeOfRays, "angle", wedge, [30, 2, 0, 89.0, 200, -15, 1e-3], None),
}


def compare(ctx, src, kind, value, wave, pose, n, what):
    rs = src.generate_rays(n)
    o, d = (np.array(v, dtype=oracle.LD).reshape(-1, 3) for v in KINDS[kind][2](value, n))
    m = pose.m
    p = o @ m[:3, :3].T + m[:3, 3]
    u = d @ m[:3, :3].T
    u = u / np.sqrt((u * u).sum(1, keepdims=True))
    if not ctx.expect(isinstance(rs, pyrayt.RaySet), "not a ray set"):
        return rs
    a = np.array(rs)
    if not ctx.expect(a.ndim == 2 and a.shape[1] == n, f"{what}: {a.shape} for {n} rays"):
        return rs
    if not ctx.expect(rs.n_rays == n and np.shape(rs.rays) == (2, 4, n), f"{what}: wrong number of rays"):
        return rs
    ctx.nontrivial += n
    rays = np.asarray(rs.rays)
    scale = 1 + float(np.abs(p).max()) if n else 1.0
    ctx.expect(bool(np.all(np.abs(rays[0, :3].T - p) < 1e-11 * scale)), f"{what}: wrong positions", n=n, got=rays[0, :3].T[:8],
               want=p[:8].astype(float))
    ctx.expect(bool(np.all(np.abs(rays[1, :3].T - u) < 1e-11)), f"{what}: wrong directions", n=n, got=rays[1, :3].T[:8],
               want=u[:8].astype(float))
    ctx.expect(bool(np.all(rays[0, 3] == 1) and np.all(rays[1, 3] == 0)), f"{what}: wrong homogeneous components", n=n,
               got=rays[:, 3])
    for f, want in (("generation", 0), ("intensity", 100), ("wavelength", wave), ("index", 1), ("id", np.arange(n))):
        got = np.asarray(getattr(rs, f))
        ctx.expect(got.shape == (n,) and bool(np.all(got == want)), f"{what}: wrong {f}", n=n, got=got[:8])
    return rs


def spoil(rs):
    """whatever a user may write into a set that was emitted"""
    for f in FIELDS:
        setattr(rs, f, 7.25)
    rs.rays[0] = 3.5
    rs.rays[1] = -1.5
    rs.rays = rs.rays * 2


OPS = [["move", 2, -1, 0.5], ["rx", 90], ["rz", 35], ["ry", -120], ["scale", 2, 0.5, 3], ["scale", 0.25, 0.25, 0.25],
       ["move", -1e4, 0, 3], "wavelength", "spoil", "default wavelength"]
WAVES = [0.45, 1.55, 0.6328]


def explore(ctx, kind, value, start, seq, counts, last_only=False):
    cls, arg, _, _, default = KINDS[kind]
    kw = {}
    if not (default is not None and value == default and start == 0.633):
        kw[arg] = value
    if start != 0.633:
        kw["wavelength"] = start
    src = cls(**kw) if len(seq) % 2 else cls(value, *([start] if start != 0.633 else []))
    wave, pose = start, oracle.Pose()
    kept = []
    for k, op in enumerate([None] + list(seq)):
        if op == "wavelength":
            wave = WAVES[k % len(WAVES)]
            src.wavelength = wave
        elif op == "default wavelength":
            wave = 0.633
            src.wavelength = 0.633
        elif op == "spoil":
            for rs, _ in kept:
                spoil(rs)
            spoil(src.generate_rays(5))
            kept = []
        elif op is not None:
            if op[0] == "move" and op[1] == 2 and k % 2:
                r = src.move_x(2).move_y(-1).move_z(0.5)
            else:
                r = oracle.apply_op(src, op)
            ctx.expect(r is src, "a move does not return the source")
            pose.apply(op)
        if last_only and k < len(seq):
            src.generate_rays(counts[-1])
            continue
        for n in counts:
            rs = compare(ctx, src, kind, value, wave, pose, n, f"{kind} of rays")
            kept.append((rs, np.array(rs)))
        again = compare(ctx, src, kind, value, wave, pose, counts[0], f"{kind} of rays, emitted again")
        kept.append((again, np.array(again)))
        ctx.expect(src.wavelength == wave, "wrong wavelength of the source")
    # emitted sets are not changed by what came later
    for rs, was in kept:
        ctx.expect(np.array_equal(np.array(rs), was), "an emitted set was changed by later calls")


def run(ctx):
    t = ctx.thorough
    counts = (1, 2, 3, 4, 5, 8, 11, 64) if not t else tuple(range(1, 40)) + (64, 101, 1000)
    for kind, (_, _, _, values, _) in KINDS.items():
        for v in values:
            for w in (0.633, 0.45, 1.2):
                for op in [()] + [(o,) for o in OPS]:
                    data = {"kind": kind, "value": v, "wavelength": w, "ops": op}
                    if ctx.selected(data):
                        with ctx.case(data, steps=len(counts) * (1 + len(op))):
                            explore(ctx, kind, v, w, op, counts)
    for seq in core.sequences(OPS, 4 if t else 3, 2):
        for kind, v in (("line", 0.3), ("circle", 1), ("cone", 30), ("wedge", 89.0)):
            data = {"kind": kind, "value": v, "ops": seq}
            if ctx.selected(data):
                with ctx.case(data, steps=2 * (1 + len(seq))):
                    explore(ctx, kind, v, 0.633, seq, (4, 1), last_only=len(seq) > 2)
    # many rays
    for kind, (_, _, _, values, _) in KINDS.items():
        for v in values[:2]:
            for n in sizes.sizes(19 if t else 17):
                data = {"kind": kind, "value": v, "rays": n}
                if ctx.selected(data):
                    with ctx.case(data):
                        src, pose = KINDS[kind][0](v), oracle.Pose()
                        for op in (["rz", 35], ["move", 2, -1, 0.5]):
                            oracle.apply_op(src, op)
                            pose.apply(op)
                        compare(ctx, src, kind, v, 0.633, pose, n, f"{kind} of many rays")
    # several sources alive at once do not mix
    for kinds in core.product(KINDS, KINDS, KINDS):
        data = {"together": kinds}
        if ctx.selected(data):
            with ctx.case(data, steps=9):
                srcs = []
                for j, k in enumerate(kinds):
                    cls, arg, _, values, _ = KINDS[k]
                    srcs.append([cls(values[j], wavelength=0.4 + j / 10), k, values[j], 0.4 + j / 10, oracle.Pose()])
                for r in range(3):
                    for j, (s, k, v, w, p) in enumerate(srcs):
                        oracle.apply_op(s, OPS[(j + 2 * r) % 6])
                        p.apply(OPS[(j + 2 * r) % 6])
                    for s, k, v, w, p in srcs:
                        compare(ctx, s, k, v, w, p, 3 + r, "sources used together")
