"""C01: every traced segment ends on the nearest surface ahead.  Scenes x poses x list orders x ray lattice."""
import itertools
import numpy as np
import pyrayt
import tinygfx.g3d as cg
from mc import core, trace
from checks import scenes

LEVEL = "model_checking"
RULE = ("state = scene (ordered list of up to four placed components: primitives, sheets, nested CSG objects, of all "
        "material kinds), traced for several generations with the whole ray lattice; every recorded row is compared with "
        "the nearest hit of an independent reference over all components; non-trivial = a segment that ends on a surface")
ASSUMPTIONS = ["rays that touch a body tangentially or on an edge, or meet two different surfaces at the same point, are "
               "counted as ambiguous from there on", "the rows of one generation may come in any order"]


GAPS = (1.6e-6, 4e-6, 2e-5, 1e-3, 1.0, 3e3, 2e6, 1e9, 1e12)


def stack(ctx, gaps, kind, order, start, slant):
    """transparent sheets (or slabs, which fill every other gap) at very different distances: each is met in turn"""
    clear = pyrayt.materials.BasicRefractor(1)
    at = np.concatenate(([0.0], np.cumsum(gaps)))
    half = 1e14
    if kind == "sheets":
        comps = [cg.XYPlane(half, half, material=clear).rotate_y(90).move_x(x) for x in at]
        want = [c.get_id() for c in comps]
    else:
        comps = [cg.Cuboid((a, -half, -half), (b, half, half), material=clear) for a, b in zip(at[::2], at[1::2])]
        want = [c.get_id() for c in comps for _ in (0, 1)]
        at = at[:len(want)]
    d = np.array([1, slant, -slant / 3])
    d /= np.linalg.norm(d)
    src = trace.Fixed([(-start, 0.2, 0.1), (-start, -0.7, 0.3)], [d, d])
    df = pyrayt.RayTracer(src, [comps[i] for i in order(len(comps))], rays_per_source=2, generation_limit=len(want) + 2).trace()
    for ray in (0, 1):
        rows = df[df["id"] == ray].sort_values("generation")
        got = [int(v) for v in rows["surface"]]
        if not ctx.expect(got == want, "a surface is skipped, or one is met that is not the next", n=len(want), got=got, want=want):
            return
        err = np.abs(rows["x1"].to_numpy() - at)
        near = np.minimum(np.diff(at, append=np.inf), np.diff(at, prepend=-start))
        ctx.expect(bool(np.all(err <= 1e-2 * np.minimum(near, 1) + 1e-14 * np.abs(at).max())), "a segment ends off the surface",
                   got=rows["x1"].tolist(), want=at)
    ctx.nontrivial += 2 * len(want)


def stacks(ctx):
    orders = {"in order": lambda n: range(n), "reversed": lambda n: range(n)[::-1], "mixed": lambda n: [(k * 2 + 1) % n if n % 2 else k for k in range(n)]}
    for gaps in itertools.product(GAPS, repeat=3):
        # what is told apart in double precision, also along a slanted ray
        total = np.cumsum(gaps)
        if any(g < 1e-11 * t for g, t in zip(gaps, total)) or gaps[0] * 1e-11 > min(gaps):
            continue
        for (how, order), kind, start, slant in itertools.product(orders.items(), ("sheets", "slabs"), (1e-7, 3e-6, 1.0, 1e4), (0, 0.4)):
            if start * 1e-11 > min(gaps) or (not ctx.thorough and (len(how) + int(start) + int(slant > 0) + GAPS.index(gaps[1])) % 3):
                continue
            data = {"gaps": gaps, "kind": kind, "order": how, "start": start, "slant": slant}
            if ctx.selected(data):
                with ctx.case(data, steps=4):
                    stack(ctx, gaps, kind, order, start, slant)


def first(ctx, kind, gap, start, order, aim):
    """surfaces of two objects that all but touch: the nearer one is hit, whichever is listed first"""
    stop = pyrayt.materials.absorber
    e = 1 + gap
    make = {"sheets": lambda: [cg.XYPlane(8, 8, material=stop).rotate_y(90), cg.XYPlane(8, 8, material=stop).rotate_y(90).move_x(gap)],
            "turned sheets": lambda: [cg.XYPlane(8, 8, material=stop).rotate_y(90).rotate_x(90),
                                      cg.XYPlane(9, 7, material=stop).rotate_y(-90).move_x(gap)],
            "slabs": lambda: [cg.Cuboid((0, -4, -4), (1, 4, 4), material=stop), cg.Cuboid((gap, -5, -5), (2, 5, 5), material=stop)],
            "balls": lambda: [cg.Sphere(e, material=stop).move_x(e), cg.Sphere(1, material=stop).move_x(e)],
            "sheet and slab": lambda: [cg.XYPlane(8, 8, material=stop).rotate_y(90), cg.Cuboid((gap, -5, -5), (2, 5, 5), material=stop)],
            "slab and sheet": lambda: [cg.Cuboid((0, -5, -5), (2, 5, 5), material=stop), cg.XYPlane(8, 8, material=stop).rotate_y(90).move_x(gap)],
            "composite and sheet": lambda: [cg.csg.difference(cg.Cuboid((0, -5, -5), (2, 5, 5), material=stop), cg.Sphere(0.5).move_x(2)),
                                            cg.XYPlane(8, 8, material=stop).rotate_y(90).move_x(gap)]}
    comps = make[kind]()
    near = {i for i, _ in comps[0].surface_ids}
    comps = comps[::-1] if order == "far first" else comps if order == "near first" else [comps[1], comps[0], comps[1]]
    at = np.array([0, 0, 0]) if kind == "balls" else np.array([0, 0.3, -0.2])
    o = [np.array([-start, 0, 0]) + at]
    d = [np.array([1.0, 0, 0])]
    if aim:
        o.append(at + start * np.array([-1.0, 0.5 * aim, 0.2 * aim]))
        d.append(at - o[-1])
    src = trace.Fixed(o, [v / np.linalg.norm(v) for v in d])
    df = pyrayt.RayTracer(src, comps, rays_per_source=len(o), generation_limit=1).trace()
    ctx.nontrivial += len(o)
    ctx.expect(len(df) == len(o) and all(int(v) in near for v in df["surface"]), "the nearer of two surfaces is not the one that is hit",
               got=df["surface"].tolist(), near=sorted(near))


def firsts(ctx):
    kinds = ("sheets", "turned sheets", "slabs", "balls", "sheet and slab", "slab and sheet", "composite and sheet")
    gaps = (1e-12, 1e-11, 1e-10, 1e-9, 1e-8, 5e-8, 2e-7, 8e-7, 1e-6, 1e-5)
    for kind, gap, start, order, aim in itertools.product(kinds, gaps, (2e-3, 1.0, 40.0, 3e3), ("far first", "near first", "far twice"), (0, 1, -0.3)):
        # told apart in double precision
        if gap < 1e-12 * max(start, 1) * (30 if aim else 8) or (kind == "balls" and gap < 1e-13 * max(1, start) ** 2 * 100):
            continue
        data = {"first": kind, "gap": gap, "start": start, "order": order, "aim": aim}
        if ctx.selected(data):
            with ctx.case(data, steps=1):
                first(ctx, kind, gap, start, order, aim)


def crowds(ctx):
    """systems of very many surfaces"""
    n = lambda c: [(k * 7 + 3) % c if c % 7 else k for k in range(c)]
    for count, kind, (how, order), slant in itertools.product((17, 40, 65, 100, 150, 270) + ((520,) if ctx.thorough else ()), ("sheets", "slabs"),
                                                              (("in order", range), ("reversed", lambda c: range(c)[::-1]), ("mixed", n)), (0, 0.2)):
        data = {"crowd": count, "kind": kind, "order": how, "slant": slant}
        if ctx.selected(data) and (ctx.thorough or count < 270 or how == "reversed"):
            with ctx.case(data, steps=count):
                stack(ctx, [0.5 + 0.1 * (k % 7) for k in range(count)], kind, order, 1.0, slant)


def run(ctx):
    stacks(ctx)
    firsts(ctx)
    crowds(ctx)
    o, d = scenes.lattice(ctx.thorough)
    limit = 8 if ctx.thorough else 5
    src = trace.Fixed(o, d, wavelength=0.55)
    for label, items in scenes.families(ctx.thorough):
        if not ctx.selected({"scene": label}):
            continue
        with ctx.case({"scene": label}, steps=limit):
            nodes = scenes.build_scene(items)
            tr = pyrayt.RayTracer(src, [n.real for n in nodes], rays_per_source=len(src), generation_limit=limit)
            df = tr.trace()
            trace.conform(ctx, df, trace.emit(src, len(src)), nodes, limit)
