"""C36: points, vectors, rays and colors.  All histories of writes and derivations, against a heap of cells."""
import copy
import itertools
import pickle
import numpy as np
import tinygfx.g3d as cg
from tinygfx.g3d import primitives
from tinygfx.g3d.materials import color
from mc import core

LEVEL = "model_checking"
TECHNIQUE = "bounded exhaustive exploration of operation histories of the implementation against a reference model"
RULE = ("state = pool of points, vectors, rays and colors after a history of writes (named coordinates, elements, normalizing, views and "
        "methods of views, assigning parts) and derivations (copies, new rays, bundles, sums); after every history every coordinate of "
        "every object is read by name, by index and as an array and compared with a model of cells; non-trivial = a coordinate read")
ASSUMPTIONS = ["origin and direction of a ray are views into the ray, as the code has them and its setters suggest"]
XYZW, RGBA = ("x", "y", "z", "w"), ("r", "g", "b", "a")


class World:
    def __init__(self):
        self.heap, self.objs, self.kinds, self.cells = [], [], [], []
        self.next = 10.0
        self.new(cg.Point(1, 2, 3), "h", [1, 2, 3, 1])
        self.new(cg.Vector(-2, 0.5, 4), "h", [-2, 0.5, 4, 0])
        self.new(cg.Ray(self.objs[0], self.objs[1]), "ray", [[1, 2, 3, 1], [-2, 0.5, 4, 0]])
        self.new(color.RGBAColor(0.1, 0.2, 0.3, 0.4), "color", [0.1, 0.2, 0.3, 0.4])
        self.new(cg.Vector(0.3, -0.002, 0.04), "h", [0.3, -0.002, 0.04, 0])
        self.new(cg.Point(), "h", [0, 0, 0, 1])
        self.new(cg.Ray(), "ray", [[0, 0, 0, 1], [1, 0, 0, 0]])
        self.new(color.RGBAColor(), "color", [0, 0, 0, 1])

    def new(self, real, kind, values):
        v = np.asarray(values, dtype=float)
        base = len(self.heap)
        self.heap += v.ravel().tolist()
        self.alias(real, kind, np.arange(base, base + v.size).reshape(v.shape))

    def alias(self, real, kind, cells):
        self.objs.append(real), self.kinds.append(kind), self.cells.append(cells)

    def value(self, k):
        c = self.cells[k]
        return np.array([self.heap[i] for i in c.ravel()]).reshape(c.shape)

    def store(self, cells, values):
        for c, v in zip(np.ravel(cells), np.ravel(values)):
            self.heap[c] = float(v)

    def fresh(self):
        self.next += 1.25
        return self.next

    def find(self, kind, nth=0):
        """the nth newest object of a kind"""
        ks = [k for k, x in enumerate(self.kinds) if x == kind]
        return ks[-1 - nth] if len(ks) > nth else None


# -- operations: each takes (world, ctx) and returns False if it has no object to work on --------------------------
def w_name(kind, nth, name):
    def f(w, ctx):
        k = w.find(kind, nth)
        v = w.fresh()
        setattr(w.objs[k], name, v)
        w.store(w.cells[k][(XYZW if kind == "h" else RGBA).index(name)], v)
    return f"{kind}{nth}.{name}=", f


def w_index(kind, nth, i):
    def f(w, ctx):
        k, v = w.find(kind, nth), w.fresh()
        w.objs[k][i] = v
        w.store(w.cells[k][i], v)
    return f"{kind}{nth}[{i}]=", f


def w_normalize(nth):
    def f(w, ctx):
        k = w.find("h", nth)
        out = w.objs[k].normalize()
        v = w.value(k)[:3]
        n = np.sqrt(np.sum(v * v))
        if n == 0:
            return False
        w.store(w.cells[k][:3], v / n)
        ctx.expect(out is w.objs[k], "normalize does not return the vector itself")
    return f"h{nth}.normalize", f


def w_view(nth, part):
    def f(w, ctx):
        k = w.find("ray", nth)
        w.alias(getattr(w.objs[k], part), "h", w.cells[k][("origin", "direction").index(part)])
    return f"view ray{nth}.{part}", f


def w_part(nth, part, name):
    """ray.origin.x = v, ray.direction.normalize()"""
    def f(w, ctx):
        k = w.find("ray", nth)
        cells = w.cells[k][("origin", "direction").index(part)]
        if name == "normalize":
            v = w.value(k)[("origin", "direction").index(part), :3]
            n = np.sqrt(np.sum(v * v))
            if n == 0:
                return False
            getattr(w.objs[k], part).normalize()
            w.store(cells[:3], v / n)
        else:
            v = w.fresh()
            setattr(getattr(w.objs[k], part), name, v)
            w.store(cells[XYZW.index(name)], v)
    return f"ray{nth}.{part}.{name}", f


def w_assign(nth, part, source):
    """ray.origin = an object: its values are copied"""
    def f(w, ctx):
        k, s = w.find("ray", nth), w.find("h", source)
        v = w.value(s)
        setattr(w.objs[k], part, w.objs[s])
        w.store(w.cells[k][("origin", "direction").index(part)], v)
    return f"ray{nth}.{part}=h{source}", f


def w_swap(nth):
    """ray.direction = ray.origin of the same ray, through a view"""
    def f(w, ctx):
        k = w.find("ray", nth)
        v = w.value(k)[0]
        w.objs[k].direction = w.objs[k].origin
        w.store(w.cells[k][1], v)
    return f"ray{nth}.direction=its origin", f


def d_ray(a, b, form):
    def f(w, ctx):
        i, j = w.find("h", a), w.find("h", b)
        if form == "both":
            real, v = cg.Ray(w.objs[i], w.objs[j]), [w.value(i), w.value(j)]
        elif form == "origin":
            real, v = cg.Ray(w.objs[i]), [w.value(i), [1, 0, 0, 0]]
        elif form == "direction":
            real, v = cg.Ray(direction=w.objs[j]), [[0, 0, 0, 1], w.value(j)]
        else:
            real, v = cg.Ray(), [[0, 0, 0, 1], [1, 0, 0, 0]]
        w.new(real, "ray", v)
    return f"Ray h{a} h{b} {form}", f


COPIES = {"np.copy": lambda x: x.copy(), "copy.copy": copy.copy, "deepcopy": copy.deepcopy, "pickle": lambda x: pickle.loads(pickle.dumps(x))}


def d_copy(kind, how):
    def f(w, ctx):
        k = w.find(kind)
        w.new(COPIES[how](w.objs[k]), kind, w.value(k))
    return f"{how} {kind}", f


def d_bundle(n):
    def f(w, ctx):
        ks = [w.find("ray", i) for i in range(n)]
        ks = [k for k in ks if k is not None]
        real = primitives.bundle_rays([w.objs[k] for k in ks])
        w.new(real, "bundle", np.stack([w.value(k) for k in ks], axis=2))
    return f"bundle {n} rays", f


def d_rays(n):
    def f(w, ctx):
        v = np.zeros((2, 4, n))
        v[0, 3] = 1
        w.new(primitives.bundle_of_rays(n), "bundle", v)
    return f"bundle_of_rays {n}", f


def w_bundle(part):
    def f(w, ctx):
        k = w.find("bundle")
        if k is None:
            return False
        v = w.fresh()
        w.objs[k][part, 1] = v
        w.store(w.cells[k][part, 1], np.full(w.cells[k][part, 1].shape, v))
    return f"bundle[{part},1]=", f


def d_sum(a, b):
    def f(w, ctx):
        i, j = w.find("h", a), w.find("h", b)
        w.new(w.objs[i] + 2 * w.objs[j], "h", w.value(i) + 2 * w.value(j))
    return f"h{a}+2h{b}", f


def d_default(kind):
    def f(w, ctx):
        real = {"point": cg.Point, "vector": cg.Vector, "color": color.RGBAColor}[kind]()
        w.new(real, "color" if kind == "color" else "h", [0, 0, 0, 0 if kind == "vector" else 1])
    return f"new {kind}", f


OPS = dict(
    [w_name("h", n, c) for n in (0, 1) for c in XYZW] + [w_name("color", n, c) for n in (0, 1) for c in RGBA] +
    [w_index("h", 0, i) for i in (0, 3)] + [w_index("color", 0, i) for i in (1, 3)] + [w_normalize(n) for n in (0, 1, 2)] +
    [w_view(n, p) for n in (0, 1) for p in ("origin", "direction")] +
    [w_part(n, p, c) for n in (0, 1) for p in ("origin", "direction") for c in ("x", "z", "w", "normalize")] +
    [w_assign(n, p, s) for n in (0, 1) for p in ("origin", "direction") for s in (0, 1)] + [w_swap(1)] +
    [d_ray(1, 0, f) for f in ("both", "origin", "direction", "none")] + [d_copy(k, h) for k in ("h", "ray", "color") for h in COPIES] +
    [d_bundle(1), d_bundle(2), d_rays(2), w_bundle(0), w_bundle(1), d_sum(0, 1), d_default("point"), d_default("vector"), d_default("color")])
CORE = ["h0.x=", "h0.normalize", "view ray0.origin", "view ray1.direction", "ray0.origin.x", "ray1.direction.normalize", "ray0.direction=h0",
        "ray1.origin=h1", "Ray h1 h0 both", "Ray h1 h0 none", "np.copy ray", "deepcopy h", "bundle 2 rays", "bundle[0,1]=", "color0.g=", "copy.copy color",
        "h0+2h1", "new color"]
NAMED = {"WHITE": (1, 1, 1, 1), "BLACK": (0, 0, 0, 1), "RED": (1, 0, 0, 1), "GREEN": (0, 1, 0, 1), "BLUE": (0, 0, 1, 1),
         "YELLOW": (1, 1, 0, 1), "ORANGE": (1, 0.5, 0, 1)}


def read_all(w, ctx):
    for k, (o, kind) in enumerate(zip(w.objs, w.kinds)):
        want = w.value(k)
        got = np.array(o)
        ok = got.shape == want.shape and np.allclose(got, want, rtol=1e-12, atol=0)
        ctx.expect(ok, f"object {k} ({kind}) has other values", n=want.size, got=got, want=want)
        ctx.nontrivial += want.size
        if kind in ("h", "color"):
            names = XYZW if kind == "h" else RGBA
            ctx.expect([float(getattr(o, c)) for c in names] == got.tolist(), f"object {k} ({kind}): coordinates by name differ", n=4)
        elif kind == "ray":
            parts = [[float(getattr(p, c)) for c in XYZW] for p in (o.origin, o.direction)]
            ctx.expect(parts == got.tolist(), f"object {k}: origin and direction of the ray differ", n=8, got=parts, want=got)


def history(ctx, seq):
    w = World()
    for name in seq:
        if OPS[name](w, ctx) is False:
            ctx.count("not possible")
            return
    ctx.count("history")
    read_all(w, ctx)
    for n, v in NAMED.items():
        ctx.expect(np.array_equal(np.array(getattr(color, n)), v), f"the color {n} changed")


def constructors(ctx):
    kinds = {"Point": (cg.Point, 3, [0, 0, 0, 1], XYZW), "Vector": (cg.Vector, 3, [0, 0, 0, 0], XYZW), "Color": (color.RGBAColor, 4, [0, 0, 0, 1], RGBA)}
    values = (7, -0.25, np.float32(0.5), 3.5)
    for name, (cls, n, base, coords) in kinds.items():
        for given in core.sequences((0, 1), n, n):
            for positional in range(n + 1):
                if not all(given[:positional]):
                    continue
                data = {"new": name, "given": given, "positional": positional}
                if not ctx.selected(data):
                    continue
                with ctx.case(data):
                    want = [v if g else b for v, g, b in zip(values, given, base)] + list(base[n:])
                    made = cls(*values[:positional], **{coords[i]: values[i] for i in range(positional, n) if given[i]})
                    other = cls()
                    ctx.nontrivial += 4
                    ctx.count("constructor")
                    ctx.expect(np.array_equal(np.array(made), want) and made.dtype == float, f"{name} has other coordinates", n=4, got=made, want=want)
                    ctx.expect(np.array_equal(np.array(other), base), f"the default {name} changed", n=4, got=other)
                    made[:] = 9
                    ctx.expect(np.array_equal(np.array(cls()), base) and np.array_equal(np.array(other), base), f"writing to one {name} changes another", n=4)
    for n in [*range(6), 63, 64, 65, 100, 101, 128, 129, 256, 257, 1000, 1025, 4097]:
        data = {"bundle": n}
        if ctx.selected(data):
            with ctx.case(data):
                a, b = primitives.bundle_of_rays(n), primitives.bundle_of_rays(n)
                a[:] = 4
                want = np.zeros((2, 4, n))
                want[0, 3] = 1
                ctx.expect(np.array_equal(b, want) and b.dtype == float, "a new bundle holds something else", n=8 * n)
                rays = [cg.Ray(cg.Point(i / 3, 2e9 + i, 3e-7), cg.Vector(0, i, 1 / 7)) for i in range(1, n + 1)]
                if n:
                    c = primitives.bundle_rays(rays)
                    ok = c.shape == (2, 4, n) and all(np.array_equal(np.array(c[..., i]), np.array(rays[i])) for i in range(n))
                    ctx.expect(ok, "a bundle of rays holds others", n=8 * n)


def lengths(ctx):
    """vectors of every length and direction, also of length nearly one, have length one afterwards and point where they pointed"""
    base = [(1, 0, 0), (0, 0, -1), (0.6, 0, 0.8), (-0.48, 0.64, 0.6), (2 / 7, -3 / 7, 6 / 7)]
    near = [1 + s * 10.0 ** -k for k in range(1, 14) for s in (1, -1)]
    for i, k, kind in core.product(range(len(base)), near + [10.0 ** e for e in range(-100, 101, 10)] + [3e-7, 5e8], ("vector", "point", "ray")):
        data = {"normalize": base[i], "length": k, "kind": kind}
        if ctx.selected(data):
            with ctx.case(data):
                v = np.array(base[i], dtype=float) * k
                if kind == "ray":
                    ray = cg.Ray(cg.Point(1, 2, 3), cg.Vector(*v))
                    ray.direction.normalize()
                    got, w = np.array(ray)[1], 0
                else:
                    h = (cg.Vector if kind == "vector" else cg.Point)(*v)
                    h.normalize()
                    got, w = np.array(h), kind == "point"
                u = v.astype(np.longdouble) / k
                want = u / np.sqrt((u * u).sum())
                ctx.nontrivial += 3
                ctx.expect(bool(np.abs(got[:3] - want.astype(float)).max() < 1e-15) and got[3] == w, "a normalized vector", n=3, got=got, want=want)


def run(ctx):
    constructors(ctx)
    lengths(ctx)
    alphabets = [(list(OPS), 2), (CORE, 4 if ctx.thorough else 3)]
    if ctx.thorough:
        alphabets[0] = (list(OPS), 3)
    for ops, depth in alphabets:
        for seq in core.sequences(ops, depth):
            if ctx.selected(seq):
                with ctx.case(seq, steps=len(seq)):
                    history(ctx, seq)
