"""C37: creating solids and flat shapes.  Every way to call every constructor, against the body it describes."""
import itertools
import numpy as np
import tinygfx.g3d as cg
from tinygfx.g3d import primitives
from tinygfx.g3d.materials.gooch import BLACK
from mc import core, oracle, rays as R, scene
from checks import c10

LEVEL = "model_checking"
TECHNIQUE = "bounded exhaustive exploration of the implementation against a reference model"
RULE = ("state = solid created in one way (which arguments are given, by place or by name, as which type of number or sequence, corners in "
        "any order), before and after a transform; every state is probed with the ray lattice, its boxes and its accessors; flat shapes are "
        "probed with grids of points in every form; non-trivial = the line meets the body / the point is in the shape")
ASSUMPTIONS = ["lines within 1e-6 (relative) of being tangent or running along an edge are counted as ambiguous, not compared"]

# name -> (class, primitive class, kind, [(argument, default, values)])
NONE = object()
SOLIDS = {
    "sphere": (cg.Sphere, primitives.Sphere, [("radius", NONE, (0.75, 3))]),
    "cylinder": (cg.Cylinder, primitives.Cylinder, [("radius", 1, (0.5, 2)), ("min_height", -1, (-0.25, 0, -3)), ("max_height", 1, (0.5, 2))]),
    "paraboloid": (cg.Paraboloid, primitives.Paraboloid, [("focus", 1, (0.25, 3)), ("height", 1, (0.5, 2))]),
    "plane": (cg.XYPlane, primitives.Plane, [("width", 2, (0.5, 3)), ("length", 2, (0.75, 5))]),
}
NUMBERS = {"as is": lambda v: v, "float": float, "float32": np.float32, "0-d": lambda v: np.array(float(v)), "float64": np.float64}
SEQUENCES = {"tuple": tuple, "list": list, "array": lambda c: np.array(c, dtype=float), "point": lambda c: cg.Point(*c), "numbers": lambda c: np.array(c)}
OPS = [(), (("move", 0.5, -1, 2),), (("scale", 2, 0.5, 3), ("ry", 35))]
CORNERS = [([-1, -1, -1], [1, 1, 1]), ([0.5, -2, 1], [1.5, 0.25, 3]), ([-3, -2, -1], [-2, 4, 0])]
MAT = object()


def check_solid(ctx, real, kind, params, material=BLACK, ops=(), what=""):
    leaf = oracle.Leaf(kind, params, real=real)
    for op in ops:
        oracle.apply_op(real, op)
        leaf.pose.apply(op)
    ctx.expect(real.material is material, f"{what}: other material")
    base = c10.lattice(kind, params, False)
    base = base[:, :, ::1 if ctx.thorough else 5]
    world = np.stack([np.asarray(oracle.mm(leaf.pose.m, base[k].astype(oracle.LD)), dtype=float) for k in (0, 1)])
    hits, ids = real.intersect(world)
    scene.compare_hits(ctx, hits, ids, leaf, world, [real.get_id()], what)
    # the box around it: as tight as the box of the corners of the body
    lo, hi = extent(kind, params)
    corners = np.array([[a, b, c, 1.0] for a in (lo[0], hi[0]) for b in (lo[1], hi[1]) for c in (lo[2], hi[2])]).T
    w = np.asarray(oracle.mm(leaf.pose.m, corners.astype(oracle.LD)), dtype=float)[:3]
    for box in (real.bounding_box, real.bounding_volume):
        span = np.asarray(box.axis_spans, dtype=float)
        ok = np.all(span[:, 0] <= w.min(1) + 1e-9) and np.all(span[:, 1] >= w.max(1) - 1e-9)
        ctx.expect(ok, f"{what}: the bounding box does not hold the body", got=span, want=[w.min(1), w.max(1)])
    ctx.expect(isinstance(real.primitive, {k: v[1] for k, v in SOLIDS.items()}.get(kind, primitives.Cube)), f"{what}: other primitive")
    if kind in ("sphere", "cylinder"):
        ctx.expect(float(real.primitive.get_radius()) == float(params[0]), f"{what}: get_radius")
    if kind == "paraboloid":
        ctx.expect(float(real.primitive.get_focus()) == float(params[0]), f"{what}: get_focus")
    return leaf, world, hits


def extent(kind, p):
    if kind == "sphere":
        return -np.ones(3) * p[0], np.ones(3) * p[0]
    if kind == "cylinder":
        return np.array([-p[0], -p[0], p[1]], float), np.array([p[0], p[0], p[2]], float)
    if kind == "paraboloid":
        r = np.sqrt(4 * p[0] * p[1])
        return np.array([-r, -r, 0.0]), np.array([r, r, p[1]])
    if kind == "plane":
        return np.array([-p[0] / 2, -p[1] / 2, 0.0]), np.array([p[0] / 2, p[1] / 2, 0.0])
    return np.min(p, axis=0).astype(float), np.max(p, axis=0).astype(float)


def call_forms(args):
    """(values given or None, how many by place) for every way to call; the material comes last"""
    options = [([None] if d is not NONE else []) + list(vals) for _, d, vals in args]
    for values in itertools.product(*options):
        for place in range(len(args) + 1):
            if all(v is not None for v in values[:place]):
                yield values, place


def solids(ctx):
    for kind, (cls, _, args) in SOLIDS.items():
        for values, place in call_forms(args):
            for mat in ("none", "name", "place"):
                if mat == "place" and place < len(args):
                    continue
                for num in NUMBERS:
                    if num != "as is" and not (ctx.thorough or place in (0, len(args)) and mat == "none"):
                        continue
                    for k, ops in enumerate(OPS):
                        data = {"solid": kind, "values": values, "place": place, "material": mat, "number": num, "ops": k}
                        if not ctx.selected(data):
                            continue
                        with ctx.case(data, steps=1 + len(ops)):
                            f = NUMBERS[num]
                            pos = [f(v) for v in values[:place]] + ([MAT] if mat == "place" else [])
                            kw = {a[0]: f(v) for a, v in list(zip(args, values))[place:] if v is not None}
                            if mat == "name":
                                kw["material"] = MAT
                            real = cls(*pos, **kw)
                            params = [float(v) if v is not None else d for (_, d, _), v in zip(args, values)]
                            check_solid(ctx, real, kind, params, BLACK if mat == "none" else MAT, ops, kind)
                            ctx.count(kind)


def boxes(ctx):
    for lo, hi in CORNERS:
        for flips in core.sequences((0, 1), 3, 3):
            a = [hi[i] if flips[i] else lo[i] for i in range(3)]
            b = [lo[i] if flips[i] else hi[i] for i in range(3)]
            for seq in SEQUENCES:
                for form in ("place", "names", "left only", "right only", "swapped names", "material"):
                    for k, ops in enumerate(OPS):
                        if k and not ctx.thorough and form not in ("place", "names"):
                            continue
                        data = {"box": [a, b], "sequence": seq, "form": form, "ops": k}
                        if not ctx.selected(data):
                            continue
                        with ctx.case(data, steps=1 + len(ops)):
                            x, y = SEQUENCES[seq](a), SEQUENCES[seq](b)
                            p, mat = [a, b], BLACK
                            if form == "place":
                                real = cg.Cuboid(x, y)
                            elif form == "names":
                                real = cg.Cuboid(l_corner=x, r_corner=y)
                            elif form == "swapped names":
                                real = cg.Cuboid(r_corner=x, l_corner=y)
                            elif form == "left only":
                                real, p = cg.Cuboid(x), [a, [1, 1, 1]]
                            elif form == "right only":
                                real, p = cg.Cuboid(r_corner=y), [[-1, -1, -1], b]
                            else:
                                real, mat = cg.Cuboid(x, y, MAT), MAT
                            if any(u == v for u, v in zip(*p)):
                                ctx.count("flat box")
                                continue
                            leaf, world, hits = check_solid(ctx, real, "cuboid", p, mat, ops, "box")
                            ctx.count("box")
                            if seq in ("list", "array"):
                                for c in (x, y):       # the box is not bound to the corners it was given
                                    for i in range(3):
                                        c[i] = 77
                                again, _ = real.intersect(world)
                                ctx.expect(np.array_equal(again, hits), "changing the list of a corner changes the box")
    for values, place in call_forms([("x", 1, (0.5, 3)), ("y", 1, (0.25, 2)), ("z", 1, (0.75, 5))]):
        for mat, num in itertools.product(("none", "name"), NUMBERS):
            if num != "as is" and mat != "none":
                continue
            data = {"from_sides": values, "place": place, "material": mat, "number": num}
            if ctx.selected(data):
                with ctx.case(data):
                    f = NUMBERS[num]
                    kw = {n: f(v) for n, v in list(zip("xyz", values))[place:] if v is not None}
                    if mat == "name":
                        kw["material"] = MAT
                    real = cg.Cuboid.from_sides(*[f(v) for v in values[:place]], **kw)
                    half = np.array([1.0 if v is None else v for v in values]) / 2
                    check_solid(ctx, real, "cuboid", [-half, half], BLACK if mat == "none" else MAT, OPS[2] if mat == "name" else (), "box of sides")
                    ctx.count("from_sides")
    for length, named, mat, num in itertools.product((1, 0.5, 4, 30.5), (0, 1), (0, 1), NUMBERS):
        data = {"from_length": length, "named": named, "material": mat, "number": num}
        if ctx.selected(data):
            with ctx.case(data):
                kw = {"material": MAT} if mat else {}
                v = NUMBERS[num](length)
                real = cg.Cuboid.from_length(length=v, **kw) if named else cg.Cuboid.from_length(v, **kw)
                check_solid(ctx, real, "cuboid", [[-length / 2] * 3, [length / 2] * 3], MAT if mat else BLACK, (), "cube of a length")
                ctx.count("from_length")
    data = {"box": "default"}
    if ctx.selected(data):
        with ctx.case(data):
            check_solid(ctx, cg.Cuboid(), "cuboid", [[-1, -1, -1], [1, 1, 1]], BLACK, (), "default box")
            check_solid(ctx, cg.Cuboid(material=MAT), "cuboid", [[-1, -1, -1], [1, 1, 1]], MAT, (), "default box")


def refusals(ctx):
    """a paraboloid needs a positive focus and height"""
    for f, h in itertools.product((-3, -0.5, 0, 0.5, 2), repeat=2):
        for named, cls in itertools.product((0, 1), (cg.Paraboloid, primitives.Paraboloid)):
            data = {"paraboloid": [f, h], "named": named, "class": cls.__module__}
            if not ctx.selected(data):
                continue
            with ctx.case(data):
                try:
                    cls(focus=f, height=h) if named else cls(f, h)
                    refused = False
                except ValueError:
                    refused = True
                ctx.nontrivial += 1
                ctx.expect(refused == (f <= 0 or h <= 0), "refused a paraboloid it can make" if refused else "made an impossible paraboloid")


def shapes(ctx):
    """flat shapes: is a point inside, for pairs of coordinates and bundles of them"""
    grid = [-4.5, -2.0, -1.001, -1.0, -0.625, -0.5, -0.49, 0.0, 0.3, 0.5, 0.51, 0.75, 1.0, 1.01, 2.0, 2.01, 3.0]
    pts = np.array(list(itertools.product(grid, repeat=2))).T
    made = []
    for r in (None, 0.5, 0.8, 1, 2, 3.5):
        made.append(("disk", [r], lambda r=r: primitives.Disk() if r is None else primitives.Disk(r)))
        if r is not None:
            made.append(("disk", [r], lambda r=r: primitives.Disk(radius=r)))
            made.append(("disk", [r], lambda r=r: primitives.Disk.from_diameter(2 * r)))
            made.append(("disk", [r], lambda r=r: primitives.Disk.from_diameter(diameter=2 * r)))
    for dia in (1, 3, 5, 7, np.int64(3), np.float32(2.5), np.int32(2)):
        made.append(("disk", [float(dia) / 2], lambda d=dia: primitives.Disk.from_diameter(d)))
        made.append(("disk", [float(dia)], lambda d=dia: primitives.Disk(d)))
    for x, y in itertools.product((np.int64(3), np.int32(1), np.float32(2.5)), repeat=2):
        made.append(("rectangle", [float(x), float(y)], lambda x=x, y=y: primitives.Rectangle(x, y)))
    for x, y in itertools.product((None, 0.5, 1, 2, 3, 4.02), repeat=2):
        kw = {k: v for k, v in (("x_length", x), ("y_length", y)) if v is not None}
        made.append(("rectangle", [x, y], lambda kw=kw: primitives.Rectangle(**kw)))
        if x is not None:
            made.append(("rectangle", [x, y], lambda x=x, y=y: primitives.Rectangle(x) if y is None else primitives.Rectangle(x, y)))
    for n, (kind, p, make) in enumerate(made):
        for form in ("bundle", "single", "one column", "integers", "no points"):
            data = {"shape": kind, "params": p, "made": n, "form": form}
            if not ctx.selected(data):
                continue
            with ctx.case(data):
                s = make()
                if kind == "disk":
                    r = 1 if p[0] is None else p[0]
                    gap = np.hypot(*pts) - r
                else:
                    x, y = (2 if v is None else v for v in p)
                    gap = np.maximum(np.abs(pts[0]) - x / 2, np.abs(pts[1]) - y / 2)
                clear = np.abs(gap) > 1e-9
                onaxis = (gap == 0) & ((pts[0] == 0) | (pts[1] == 0) | (kind == "rectangle"))     # exact: the edge belongs to it
                sure, want = clear | onaxis, gap <= 0
                if form == "bundle":        # as close to the edge as doubles allow, at every angle
                    near(ctx, s, kind, p)
                keep = pts.copy()
                if form == "bundle":
                    got = np.asarray(s.point_in_shape(pts))
                    ctx.expect(got.shape == want.shape and np.array_equal(got[sure], want[sure]), f"{kind}: a bundle of points", n=pts.shape[1])
                elif form == "single":
                    got = [s.point_in_shape(pts[:, i]) for i in range(pts.shape[1])]
                    ctx.expect(all(np.ndim(g) == 0 for g in got) and np.array_equal(np.array(got, dtype=bool)[sure], want[sure]), f"{kind}: one point at a time", n=len(got))
                elif form == "one column":
                    got = [s.point_in_shape(pts[:, i:i + 1]) for i in range(pts.shape[1])]
                    ctx.expect(all(np.shape(g) == (1,) for g in got) and np.array_equal(np.array(got)[:, 0][sure], want[sure]), f"{kind}: bundles of one point", n=len(got))
                elif form == "integers":
                    whole = np.all(pts == np.round(pts), axis=0)
                    got = np.asarray(s.point_in_shape(pts[:, whole].astype(int)))
                    ctx.expect(np.array_equal(got[sure[whole]], want[whole][sure[whole]]), f"{kind}: integer points", n=int(whole.sum()))
                else:
                    ctx.expect(np.shape(s.point_in_shape(pts[:, :0])) == (0,), f"{kind}: no points")
                ctx.nontrivial += int((want & sure).sum())
                ctx.expect(np.array_equal(keep, pts), f"{kind}: the points were changed")


def near(ctx, s, kind, p):
    gaps = np.array([-1e-3, -1e-6, -1e-8, -1e-10, -1e-12, -3e-14, 3e-14, 1e-12, 1e-10, 1e-8, 1e-6, 1e-3])
    if kind == "disk":
        r = 1 if p[0] is None else p[0]
        angle = np.repeat(np.linspace(0.01, 6.3, 33), len(gaps))
        pts = r * (1 + np.tile(gaps, 33)) * np.stack((np.cos(angle), np.sin(angle)))
        want = np.tile(gaps <= 0, 33)
    else:
        hx, hy = (1.0 if v is None else v / 2 for v in p)
        edge = [(sx * hx * (1 + g), f * hy, g) for sx in (1, -1) for g in gaps for f in (0, 0.4, -0.99)]
        edge += [(f * hx, sy * hy * (1 + g), g) for sy in (1, -1) for g in gaps for f in (0, 0.4, -0.99)]
        edge += [(hx * (1 + g), -hy * (1 + k), max(g, k)) for g in gaps for k in gaps]
        pts, want = np.array(edge).T[:2], np.array(edge)[:, 2] <= 0
    got = np.asarray(s.point_in_shape(pts))
    ctx.evaluations += len(want)
    ctx.expect(got.shape == want.shape and np.array_equal(got, want), f"{kind}: points next to the edge")


def overlaps(ctx):
    """the entries of two lists that lie in the range of both"""
    lists = [list(s) for n in (1, 2, 3) for s in itertools.product((-1.5, 0.0, 1.0, 2.5), repeat=n)]
    for a in lists:
        data = {"overlap": a}
        if not ctx.selected(data):
            continue
        with ctx.case(data, steps=len(lists)):
            for b in lists:
                lo, hi = max(min(a), min(b)), min(max(a), max(b))
                want = [[v for v in x if lo <= v <= hi] for x in (a, b)]
                got = primitives.overlap(np.array(a), np.array(b))
                ctx.nontrivial += bool(want[0] or want[1])
                ctx.expect(len(got) == 2 and all(list(g) == w for g, w in zip(got, want)), "overlap of two lists", a=a, b=b, got=got, want=want)


def run(ctx):
    refusals(ctx)
    shapes(ctx)
    overlaps(ctx)
    boxes(ctx)
    solids(ctx)
