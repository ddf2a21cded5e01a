"""C06: attribution of rows to sources.  Source lists x ray counts x survival patterns x operations before asking."""
import itertools
import numpy as np
import pyrayt
import pyrayt.components as pc
import tinygfx.g3d as cg
from pyrayt import materials as matl
from mc import core, trace

LEVEL = "model_checking"
RULE = ("state = source list x rays per source x survival pattern x sequence of operations between tracing and computing the "
        "source ids; every source has its own place, so the start of a ray tells who emitted it; non-trivial = a row attributed")
ASSUMPTIONS = ["the operations after the trace do not include a reset (there are no results to attribute then)"]

KINDS = ["line", "circle", "cone", "wedge", "lamp", "static", "fixed"]


def source(kind, j):
    w = 0.4 + 0.05 * j
    s = {"line": lambda: pc.LineOfRays(0.5, wavelength=w), "circle": lambda: pc.CircleOfRays(0.5, wavelength=w),
         "cone": lambda: pc.ConeOfRays(3, wavelength=w), "wedge": lambda: pc.WedgeOfRays(5, wavelength=w),
         "lamp": lambda: pc.Lamp(0.3, 0.4, 3, wavelength=w), "static": lambda: pc.StaticLamp(0.3, 0.4, 3, wavelength=w),
         "fixed": lambda: trace.Fixed([(0, 0, 10 * j), (0, 0.1, 10 * j)], [(1, 0, 0), (1, 0.01, 0)], w)}[kind]()
    return s if kind == "fixed" else s.move_z(10 * j)


def components(pattern, count, total):
    """a wall that all rays reach, after stops that take some of the rays out (by source, or by the side they are on)"""
    out = []
    if pattern == "second source stopped":
        out.append(pc.baffle((5, 5)).move(2, 0, 10))
    elif pattern == "first source stopped":
        out.append(pc.baffle((5, 5)).move(2, 0, 0))
    elif pattern == "half of each stopped":
        out += [pc.baffle((3, 5)).move(2, 1.5, 10 * j) for j in range(total)]
    elif pattern == "first misses":
        pass
    out.append(cg.XYPlane(40, 10.0 * total + 5 if pattern != "first misses" else 10.0 * total - 6, material=matl.mirror))
    out[-1].rotate_z(90).rotate_y(90).move(4, 0, 5.0 * (total - 1) + (5.5 if pattern == "first misses" else 0))
    out.append(cg.XYPlane(400, 400, material=matl.absorber).rotate_y(90).move_x(-3))
    return out


AFTER = {
    "nothing": lambda t: None,
    "more rays": lambda t: t.set_rays_per_source(t.get_rays_per_source() * 3 + 1),
    "fewer rays": lambda t: t.set_rays_per_source(1),
    "limit": lambda t: t.set_generation_limit(1),
    "twice": lambda t: t.calculate_source_ids(),
    "load": lambda t: t.load_components([pc.baffle((1, 1))]),
    "again": lambda t: t.trace(),
}


def explore(ctx, kinds, n, pattern, after, limit=4):
    made = {j: source(kinds[j], j) for j in sorted(range(len(kinds)), key=lambda j: (j * 5 + 3) % 7)}   # in another order
    srcs = [made[j] for j in range(len(kinds))]
    comps = components(pattern, n, len(srcs))
    one = len(srcs) == 1 and n % 2
    tr = pyrayt.RayTracer(srcs[0] if one else (srcs if n != 3 else tuple(srcs)), comps, rays_per_source=n,
                          generation_limit=limit)
    tr.trace()
    for op in after:
        if op == "again":
            n = tr.get_rays_per_source()
        AFTER[op](tr)
    tr.calculate_source_ids()
    df = tr.get_results()
    if not ctx.expect("source_id" in df.columns, "there is no source_id column"):
        return
    a = {c: df[c].to_numpy(dtype=float) for c in ("id", "generation", "z0", "wavelength", "source_id")}
    total = len(srcs) * n
    first = a["generation"] == 0
    want = np.round(a["z0"] / 10)
    ctx.nontrivial += len(df)
    ctx.count(f"{len(df)} rows")
    ctx.expect(bool(np.all(want[first] == a["source_id"][first])), "a row is attributed to the wrong source", n=len(df),
               got=a["source_id"][first][:20], want=want[first][:20], ids=a["id"][first][:20])
    # later rows by their wavelength, which only the emitting source has
    by_wave = np.round((a["wavelength"] - 0.4) / 0.05)
    ctx.expect(bool(np.all(by_wave == a["source_id"])), "a later row is attributed to the wrong source", n=len(df),
               got=a["source_id"][:30], want=by_wave[:30], ids=a["id"][:30])
    # ids in source order
    ctx.expect(bool(np.all(np.floor(a["id"] / n) == by_wave)), "ray ids are not assigned in source order", n=len(df),
               ids=a["id"][:30], sources=by_wave[:30])
    ctx.expect(bool(np.all((a["id"] >= 0) & (a["id"] < total))), "ray ids outside the number of emitted rays")
    # in source order also within a source: the k-th ray it emits is number k
    for j, (k, s) in enumerate(zip(kinds, srcs[:400])):
        if k != "lamp":
            em = np.array(s.generate_rays(n))
            m = first & (a["source_id"] == j)
            idx = (a["id"][m] - j * n).astype(int)
            if idx.size and np.all((idx >= 0) & (idx < n)):
                ctx.expect(bool(np.allclose(df["y0"].to_numpy()[m], em[1, idx], atol=1e-9) and
                                np.allclose(df["x_tilt"].to_numpy()[m], em[4, idx], atol=1e-9)),
                           "a ray id does not belong to the ray of that number", source=k)


def repeated(ctx, order, kinds, n, after):
    """a source that is listed more than once emits once for each time it is listed"""
    srcs = [source(k, j) for j, k in enumerate(kinds)]
    tr = pyrayt.RayTracer([srcs[j] for j in order], components("half of each stopped", n, len(srcs)), rays_per_source=n)
    tr.trace()
    for op in after:
        AFTER[op](tr)
    tr.calculate_source_ids()
    df = tr.get_results()
    if not ctx.expect("source_id" in df.columns, "there is no source_id column"):
        return
    a = {c: df[c].to_numpy(dtype=float) for c in ("id", "generation", "z0", "wavelength", "source_id")}
    first = a["generation"] == 0
    ctx.nontrivial += len(df)
    ids = np.sort(a["id"][first])
    ctx.expect(np.array_equal(ids, np.arange(len(order) * n)), "not one row per emitted ray when sources are listed again",
               n=len(order), got=ids, want=len(order) * n)
    ctx.expect(np.array_equal(np.floor(a["id"] / n), a["source_id"]), "ids are not in source order when sources are listed again",
               n=len(order), ids=a["id"][:30], got=a["source_id"][:30])
    ok = (a["source_id"] >= 0) & (a["source_id"] < len(order))
    by_wave = np.round((a["wavelength"] - 0.4) / 0.05)
    ctx.expect(bool(np.all(ok)) and np.array_equal(np.array(order)[a["source_id"].astype(int)], by_wave),
               "a row is attributed to the wrong place in the list of sources", n=len(order), got=a["source_id"][:30],
               want=by_wave[:30])


def run(ctx):
    patterns = ["all", "second source stopped", "first source stopped", "half of each stopped", "first misses"]
    counts = (1, 2, 3, 7, 10) if not ctx.thorough else (1, 2, 3, 4, 5, 6, 7, 10, 33, 100)
    for total in (1, 2, 3, 5) if not ctx.thorough else (1, 2, 3, 4, 5, 8):
        for n, pattern in itertools.product(counts, patterns):
            rot = [tuple(KINDS[(i + j) % len(KINDS)] for j in range(total)) for i in range(len(KINDS))]
            for kinds in rot:
                data = {"sources": kinds, "n": n, "pattern": pattern}
                if ctx.selected(data):
                    with ctx.case(data):
                        explore(ctx, kinds, n, pattern, ())
    # what the user did between tracing and asking
    for after in core.sequences(list(AFTER), 3 if ctx.thorough else 2):
        for kinds, n, pattern in (((("line", "cone", "static")), 4, "first source stopped"),
                                  (("wedge", "fixed"), 3, "half of each stopped")):
            data = {"sources": kinds, "n": n, "pattern": pattern, "after": after}
            if ctx.selected(data):
                with ctx.case(data, steps=2 + len(after)):
                    explore(ctx, kinds, n, pattern, after)
    # pairs of kinds
    for kinds in itertools.product(KINDS, repeat=2 if not ctx.thorough else 3):
        data = {"sources": kinds, "n": 6}
        if ctx.selected(data):
            with ctx.case(data):
                explore(ctx, kinds, 6, "half of each stopped", ())
    # sources listed again
    for size in range(2, 6 if ctx.thorough else 5):
        for order in itertools.product(range(3), repeat=size):
            for n, i in itertools.product((1, 3), range(3)):
                kinds = [KINDS[(i * 3 + j) % len(KINDS)] for j in range(3)]
                data = {"order": order, "kinds": kinds, "n": n}
                if len(set(order)) < size and (size < 4 or ctx.thorough or i == sum(order) % 3) and ctx.selected(data):
                    with ctx.case(data):
                        repeated(ctx, order, kinds, n, ("twice",) if i == 1 else ())
    # many sources
    for total, n in itertools.product((12, 40) if not ctx.thorough else (12, 40, 150), (1, 3, 11)):
        data = {"many": total, "n": n}
        if ctx.selected(data):
            with ctx.case(data):
                explore(ctx, tuple(KINDS[(3 * j) % len(KINDS)] for j in range(total)), n, "second source stopped", ())
    for total, n in ((130, 2), (300, 3), (33000, 1)):
        data = {"many": total, "n": n}
        if ctx.selected(data):
            with ctx.case(data):
                explore(ctx, tuple(KINDS[-1 - (j % 41 == 5)] for j in range(total)), n, "second source stopped", ())
    # every number of rays
    for n in range(1, 700 if ctx.thorough else 220):
        data = {"every": n}
        if ctx.selected(data):
            with ctx.case(data):
                explore(ctx, ("fixed", "circle", "static", "line", "cone"), n, "all", ())
    # many rays
    for total, n in itertools.product((2, 3, 5) if not ctx.thorough else (1, 2, 3, 4, 5, 9), (99, 128, 257, 1000, 40000)):
        if total * n > 250000:
            continue
        for pattern in ("all", "first source stopped"):
            data = {"sources": total, "many rays": n, "pattern": pattern}
            if ctx.selected(data):
                with ctx.case(data):
                    explore(ctx, tuple(KINDS[(2 * j) % 6] for j in range(total)), n, pattern, ())
