"""C17: pin contexts.  Ordered sets of pinned objects of a nest x bodies x the way the context is left."""
import itertools
import numpy as np
import pyrayt
import pyrayt.components as pc
import tinygfx.g3d as cg
from mc import core, oracle
from mc.scene import leaf
from checks import c16

LEVEL = "model_checking"
RULE = ("state = nest of groups, composites, parts and sources x ordered set of pinned objects (of any levels) x sequence of "
        "transforms in the body x exit (normal, exception, second context inside, the same context again); on leaving, the "
        "transforms of pinned objects (and of what moves rigidly with them) must be those on entering and those of all others "
        "those they had before leaving; non-trivial = a pinned object that was moved inside")
ASSUMPTIONS = ["the state of an unpinned part that was moved relative to a pinned object that contains it is not specified"]

OPS = {"move": ["move", 1.3, -0.4, 0.8], "turn": ["rx", 65], "scale": ["scale", 1.5, 0.6, 2], "far": ["move", 300, 0, -700],
       "spin": ["rz", -120], "shear": ["tf", [[1, 0.3, 0, 0], [0, 1, 0, 0.5], [0, -0.2, 1, 0], [0, 0, 0, 1]]]}


class Boom(Exception):
    pass


class World:
    """group [ composite(a - b), s, source ], and an object outside of it"""

    def __init__(self):
        a, b = c16.body(c16.A), c16.body(c16.B)
        a.apply(["move", 0.2, 0.1, 0])
        R = c16.join("difference", a, b)
        R.apply(["rz", 20])
        b.apply(["scale", 1.1, 0.8, 1.2])
        s = c16.body(c16.E)
        src = c16.Node(pc.LineOfRays(1))
        src.apply(["move", -3, 0, 0])
        G = c16.group(R, s, src)
        G.apply(["ry", 15])
        G.apply(["move", 0, 0, 1])
        u = c16.body(c16.C)
        self.n = {"a": a, "b": b, "R": R, "s": s, "src": src, "G": G, "u": u}
        self.parent = {"a": "R", "b": "R", "R": "G", "s": "G", "src": "G", "G": None, "u": None}

    def up(self, x):
        while x is not None:
            yield x
            x = self.parent[x]

    def apply(self, op):
        self.n[op[0]].apply(OPS[op[1]])

    def poses(self):
        return {k: (n.pose.m.copy(), n.pose.i.copy()) for k, n in self.n.items()}

    def left(self, pinned, entered, ops):
        """bring the model to the state after leaving; returns the names whose state is open"""
        for k, n in self.n.items():
            by = next((x for x in self.up(k) if x in pinned), None)
            if by is None:
                continue
            between = list(itertools.takewhile(lambda x: x != by, self.up(k)))
            if any(o[0] in between for o in ops):
                self.open.add(k)
                continue
            n.pose.m, n.pose.i = entered[k][0].copy(), entered[k][1].copy()
            if isinstance(n.tree, oracle.Leaf):
                n.tree.pose.m, n.tree.pose.i = n.pose.m.copy(), n.pose.i.copy()
            self.open.discard(k)

    open = None

    def check(self, ctx, what):
        for k, n in self.n.items():
            if k in self.open:
                ctx.ambiguous += 1
                continue
            got, want = n.real.get_world_transform(), n.pose.m.astype(float)
            ctx.expect(bool(np.all(np.abs(got - want) < 1e-7 * (1 + np.abs(want).max()))), f"{what}: wrong transform",
                       object=k, got=got, want=want)


def pinned_sets(thorough):
    names = ["a", "b", "R", "s", "G"]
    for r in range(0, 4 if not thorough else 6):
        for p in itertools.permutations(names, r):
            if r == 3 and not thorough and not ({"a", "R"} <= set(p) or {"R", "G"} <= set(p) or {"a", "G"} <= set(p)):
                continue
            yield p
    yield ("src",)
    yield ("src", "G")
    yield ("u", "a")


MADE = {
    "ball": lambda: cg.Sphere(1), "lens": lambda: pc.biconvex_lens(4, 5, 0.5), "stop": lambda: pc.aperture((2, 3), (1, 1)),
    "group": lambda: cg.ObjectGroup([cg.Sphere(1), cg.Cuboid().move_x(2)]), "source": lambda: pc.LineOfRays(1),
    "camera": lambda: cg.OrthographicCamera(3, 1, 1), "lamp": lambda: pc.Lamp(1, 1, 10), "baffle": lambda: pc.baffle((1, 2)),
}


def members(obj):
    """the object and everything that moves with it"""
    if isinstance(obj, cg.ObjectGroup):
        return [obj] + [m for x in obj for m in members(x)]
    if isinstance(obj, cg.Intersectable):
        return [obj] + [s for _, s in obj.surface_ids if s is not obj]
    return [obj]


def stays(ctx, objs, pinned, act, what, tol, leave="normal"):
    """everything is where it was after the context in which act moved it"""
    everything = [m for o in objs for m in members(o)]
    before = [m.get_world_transform() for m in everything]
    inv = [m.get_object_transform() for m in everything]
    try:
        with pyrayt.pin(*pinned):
            act()
            moved = sum(not np.array_equal(m.get_world_transform(), b) for m, b in zip(everything, before))
            if leave != "normal":
                raise Boom()
    except Boom:
        pass
    ctx.nontrivial += moved > 0
    for m, b, i in zip(everything, before, inv):
        for got, want, which in ((m.get_world_transform(), b, "world"), (m.get_object_transform(), i, "object")):
            bad = np.abs(got - want).max()
            if not ctx.expect(bad <= tol * (1 + np.abs(want).max()), f"{what}: wrong {which} transform after leaving", got=got, want=want,
                              kind=type(m).__name__):
                return


def small(ctx):
    """moves that are small, or small next to where the object is, are undone as well"""
    steps = [("move", (d, -d / 2, d)) for d in (1e-10, 1e-9, 1e-7, 1e-5, 1e-3, 0.4)] + \
            [(r, (a,)) for r, a in itertools.product(("rotate_x", "rotate_y", "rotate_z"), (1e-9, 1e-7, 1e-5, 0.001))] + \
            [("scale_all", (1 + e,)) for e in (1e-11, 1e-9, 1e-6)] + [("scale", (1 + 1e-9, 1, 1 - 1e-7)), ("scale_y", (1 + 1e-8,))]
    for (name, make), place, (how, args) in itertools.product(MADE.items(), (0, 3, 700, 2e5), steps):
        data = {"pinned": name, "at": place, "step": [how] + list(args)}
        if not ctx.selected(data):
            continue
        with ctx.case(data, steps=3):
            for leave in ("normal", "raise"):
                o = make()
                o.rotate_z(20).move(place, -place / 3, place / 7)
                stays(ctx, [o], [o], lambda: getattr(o, how)(*args), "a small step", 3e-14 * (1 + place if how != "move" else 1), leave)


def ends(ctx):
    """a context left in every way a block can be left"""
    class Own(BaseException):
        pass
    for kind, (name, make) in itertools.product((Boom, ValueError, KeyError, StopIteration, GeneratorExit, KeyboardInterrupt, SystemExit,
                                                 AssertionError, MemoryError, RecursionError, ZeroDivisionError, ArithmeticError, OSError,
                                                 NotImplementedError, Warning, Own, np.linalg.LinAlgError, "return", "break", "continue",
                                                 "close", "throw"), MADE.items()):
        data = {"left by": kind if isinstance(kind, str) else kind.__name__, "pinned": name}
        if not ctx.selected(data):
            continue
        with ctx.case(data, steps=2):
            o = make()
            o.rotate_x(31).move(2, 0.5, -1)
            before = o.get_world_transform()

            def body():
                for _ in (0,):
                    with pyrayt.pin(o):
                        o.move(3, 1, 4).rotate_z(70)
                        if kind == "return":
                            return
                        if kind == "break":
                            break
                        if kind == "continue":
                            continue
                        raise kind()

            def walk():
                with pyrayt.pin(o):
                    o.move(3, 1, 4).rotate_z(70)
                    yield 1

            left = None
            try:
                if kind in ("close", "throw"):
                    g = walk()
                    next(g)
                    g.close() if kind == "close" else g.throw(Boom())
                else:
                    body()
            except BaseException as e:
                left = type(e)
            want = None if kind in ("return", "break", "continue", "close") else Boom if kind == "throw" else kind
            ctx.expect(left is want, "leaving a context hides or invents an exception", got=str(left), want=str(want))
            ctx.nontrivial += 1
            ctx.expect(bool(np.abs(o.get_world_transform() - before).max() < 1e-13), "a pinned object is not restored", kind=name)


def crowd(ctx):
    """many pinned objects"""
    for n in (2, 7, 8, 9, 16, 17, 33, 40, 100) if not ctx.thorough else list(range(2, 40)) + [64, 65, 100, 129, 257]:
        for leave, part in itertools.product(("normal", "raise"), ("all", "last", "odd")):
            data = {"pinned": n, "moved": part, "leave": leave}
            if not ctx.selected(data):
                continue
            with ctx.case(data, steps=n + 2):
                objs = [list(MADE.values())[k % len(MADE)]().move(k, 0, 1) for k in range(n)]
                pick = {"all": objs, "last": objs[-1:], "odd": objs[1::2]}[part]
                stays(ctx, objs, objs, lambda: [o.move(1, 0.3, -2).rotate_x(33) for o in pick], "many pinned objects", 1e-12, leave)
    # a deep composite and all its levels
    for depth in (2, 4, 6, 8) if not ctx.thorough else range(1, 12):
        for order, moved, leave in itertools.product(("in", "out", "mixed"), ("each", "inner", "outer"), ("normal", "raise")):
            data = {"depth": depth, "order": order, "moved": moved, "leave": leave}
            if not ctx.selected(data):
                continue
            with ctx.case(data, steps=depth + 2):
                nodes = [cg.Sphere(1)]
                leaves = []
                for k in range(depth):
                    leaves.append(cg.Cuboid().move_x(0.3 * k))
                    how = (cg.csg.union, cg.csg.difference, cg.csg.intersect)[k % 3]
                    nodes.append((how(nodes[-1], leaves[-1]) if k % 2 else how(leaves[-1], nodes[-1])).rotate_z(7))
                pins = nodes + leaves
                pins = {"in": pins, "out": pins[::-1], "mixed": pins[::2] + pins[1::2][::-1]}[order]
                acts = {"each": nodes + leaves, "inner": nodes[:1] + leaves[:1], "outer": nodes[-1:]}[moved]
                stays(ctx, nodes + leaves, pins, lambda: [o.move(0.3, 1, 0).rotate_y(25) for o in acts], "a deep composite", 1e-10, leave)


def run(ctx):
    t = ctx.thorough
    small(ctx)
    crowd(ctx)
    ends(ctx)
    targets = ["a", "R", "G", "b"]
    bodies = list(core.sequences(list(itertools.product(targets, ("move", "scale"))), 2))
    bodies += list(core.sequences([("a", "shear"), ("R", "turn"), ("G", "far"), ("s", "spin"), ("src", "turn"), ("u", "move")],
                                  3 if t else 2, 1))
    bodies += [tuple(zip("aRGRab", ("move", "turn", "scale", "shear", "spin", "far")))]
    for pinned in pinned_sets(t):
        for k, body in enumerate(bodies):
            if len(pinned) > 2 and not t and k % 5:
                continue
            for leave in ("normal", "raise") if t or k % 4 == 0 else ("normal",):
                data = {"pin": pinned, "ops": [list(o) for o in body], "leave": leave}
                if not ctx.selected(data):
                    continue
                with ctx.case(data, steps=len(body) + 2):
                    w = World()
                    w.open = set()
                    entered = w.poses()
                    try:
                        with pyrayt.pin(*[w.n[p].real for p in pinned]) as objs:
                            ctx.expect(len(objs) == len(pinned) and all(x is w.n[p].real for x, p in zip(objs, pinned)),
                                       "the context does not hand out the pinned objects")
                            for o in body:
                                w.apply(o)
                            w.check(ctx, "inside the context")
                            if leave == "raise":
                                raise Boom()
                    except Boom:
                        left = "raised"
                    else:
                        left = "normal"
                    ctx.expect(left == ("raised" if leave == "raise" else "normal"),
                               "an exception raised in the body is swallowed")
                    ctx.nontrivial += any(o[0] in set(w.up(p)) for o in body for p in pinned)
                    w.left(pinned, entered, body)
                    w.check(ctx, "after leaving")
                    if k % 7 == 0 and not w.open:
                        c16.audit(ctx, w.n["R"], "composite after leaving a context")
    # contexts inside contexts, and one after the other
    sets = [("a",), ("R",), ("G",), ("R", "a"), ("a", "G"), ("s", "R")]
    steps = [("a", "move"), ("R", "scale"), ("G", "turn"), ("b", "move")]
    for p, q in itertools.product(sets, repeat=2):
        for x, y, z in itertools.product(steps, repeat=3):
            for leave in ("normal", "raise inside", "raise outside"):
                if not t and leave != "normal" and x != y:
                    continue
                data = {"outer": p, "inner": q, "ops": [x, y, z], "leave": leave}
                if not ctx.selected(data):
                    continue
                with ctx.case(data, steps=7):
                    w = World()
                    w.open = set()
                    first = w.poses()
                    try:
                        with pyrayt.pin(*[w.n[i].real for i in p]):
                            w.apply(x)
                            second = w.poses()
                            try:
                                with pyrayt.pin(*[w.n[i].real for i in q]):
                                    w.apply(y)
                                    if leave == "raise inside":
                                        raise Boom()
                            except Boom:
                                ctx.count("raised inside")
                            w.left(q, second, [y])
                            w.check(ctx, "after leaving the inner context")
                            # what left() cannot follow, and what it brought to a new place relative to its container
                            seen = {o for o in (x, y, z)}
                            w.apply(z)
                            if leave == "raise outside":
                                raise Boom()
                    except Boom:
                        ctx.count("raised outside")
                    # members restored inside while their container was not have moved relative to it
                    extra = [(i, "") for i in q if any(o[0] in set(w.up(i)) - {i} for o in (y,))]
                    w.left(p, first, [x, y, z] + extra)
                    w.check(ctx, "after leaving the outer context")
                    ctx.nontrivial += 1
    for p in sets:
        for seq in itertools.product(steps, repeat=3):
            data = {"reused": p, "ops": seq}
            if not ctx.selected(data):
                continue
            with ctx.case(data, steps=7):
                w = World()
                w.open = set()
                context = pyrayt.pin(*[w.n[i].real for i in p])
                w.apply(seq[0])             # between making the context and entering it
                for _ in (0, 1):
                    entered = w.poses()
                    with context:
                        w.apply(seq[1])
                    w.left(p, entered, [seq[1]])
                    w.check(ctx, "after leaving a context that is used twice")
                    if not w.open:
                        w.apply(seq[2])
                ctx.nontrivial += 1
    # the way it is used: a sweep over a traced system
    for objs, n in itertools.product((("lens",), ("lens", "source"), ("source",), ("lens", "stop")), (1, 3)):
        data = {"sweep": objs, "n": n}
        if not ctx.selected(data):
            continue
        with ctx.case(data, steps=2 * n + 2):
            sysm = {"lens": pc.biconvex_lens(4, 5, 0.5, aperture=1.5), "source": pc.LineOfRays(1).move_x(-3),
                    "stop": pc.baffle((4, 4)).move_x(5)}
            tr = pyrayt.RayTracer(sysm["source"], [sysm["lens"], sysm["stop"]], rays_per_source=4)
            before = tr.trace().copy(deep=True)
            for i in range(n):
                with pyrayt.pin(*[sysm[o] for o in objs]):
                    for o in objs:
                        sysm[o].move(0.01 * i + 0.02, 0.03, 0).rotate_z(3)
                    moved = tr.trace()
                    ctx.expect(not np.allclose(moved.to_numpy(float)[:1], before.to_numpy(float)[:1]) or objs == ("stop",),
                               "moving in a context has no effect")
                after = tr.trace()
                ctx.expect(after.shape == before.shape and bool(np.allclose(
                    after.to_numpy(float), before.to_numpy(float), atol=1e-9)), "a trace after a pin context differs")
                ctx.nontrivial += 1
