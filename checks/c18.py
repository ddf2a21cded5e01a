"""C18: identity of objects.  Every sequence of creating, combining, moving, pinning, tracing."""
import numpy as np
import pyrayt
import pyrayt.components as pc
import tinygfx.g3d as cg
from pyrayt import materials as matl
from mc import core, trace

LEVEL = "model_checking"
RULE = ("state = all objects alive after a sequence of creations (every primitive, factory, source, camera), combinations "
        "(composites, groups), removals and uses; in every state all ids are different and unchanged, every lookup list holds "
        "exactly the primitives the object was made of under their own ids, and traced rows name the surface that was hit; "
        "non-trivial = at least two objects")
ASSUMPTIONS = ["objects duplicated with the copy module are not part of the space"]


NOTHING = getattr(cg.world_objects, "CountedObject", cg.WorldObject)        # the cheapest object there is


class OwnBall(cg.Sphere):
    """what a user may derive"""


MAKE = {
    "sphere": lambda: cg.Sphere(0.4, material=matl.mirror), "cuboid": lambda: cg.Cuboid.from_length(0.7, material=matl.absorber),
    "cylinder": lambda: cg.Cylinder(0.3, -0.4, 0.4, material=matl.absorber), "paraboloid": lambda: cg.Paraboloid(0.5, 0.6, material=matl.mirror),
    "plane": lambda: cg.XYPlane(0.8, 0.8, material=matl.absorber), "own": lambda: OwnBall(0.35, material=matl.mirror),
    "biconvex": lambda: pc.biconvex_lens(3, 3, 0.3), "plano": lambda: pc.plano_convex_lens(3, 0.3),
    "thick": lambda: pc.thick_lens(-3, 3, 0.3), "flat": lambda: pc.plane_mirror(0.2), "spherical": lambda: pc.spherical_mirror(4, 0.2),
    "parabolic": lambda: pc.parabolic_mirror(2, 0.2), "baffle": lambda: pc.baffle((1, 2)), "stop": lambda: pc.aperture((2, 2), 0.5),
    "prism": lambda: pc.equilateral_prism(1, 1),
    "line": lambda: pc.LineOfRays(), "circle": lambda: pc.CircleOfRays(), "cone": lambda: pc.ConeOfRays(10),
    "wedge": lambda: pc.WedgeOfRays(10), "lamp": lambda: pc.Lamp(1, 1), "static": lambda: pc.StaticLamp(1, 1),
    "camera": lambda: cg.OrthographicCamera(3, 1, 1), "world": cg.WorldObject, "group0": cg.ObjectGroup,
}
OTHER = ["union", "difference", "intersect", "group", "move", "trace", "pin", "drop", "render", "fail"]
SURFACE = ("sphere", "cuboid", "cylinder", "paraboloid", "plane", "own")


class World:
    def __init__(self):
        self.alive = []      # [object, id at creation, set of primitive ids or None where a factory made them]
        self.surfaces = {}   # id -> primitive object
        self.free = []       # entries with surfaces that are not part of a composite

    def add(self, obj, parts=None, surface=False):
        e = [obj, obj.get_id(), parts]
        self.alive.append(e)
        if surface:
            self.free.append(e)
        return e

    def do(self, op, ctx):
        if op in MAKE:
            o = MAKE[op]()
            if op in SURFACE:
                self.surfaces[o.get_id()] = o
                self.add(o, [o.get_id()], True)
            else:
                self.add(o, None, isinstance(o, cg.Intersectable))
        elif op in ("union", "difference", "intersect"):
            if len(self.free) >= 2:
                l, r = self.free.pop(-2), self.free.pop(-1)
                o = getattr(cg.csg, op)(l[0], r[0])
                self.add(o, self.ids(l) + self.ids(r), True)
        elif op == "group":
            self.add(cg.ObjectGroup([e[0] for e in self.alive[-2:]]))
        elif op == "move":
            for e in self.alive[-2:]:
                e[0].move(0.01, 0, 0).rotate_x(10)
        elif op == "pin":
            with pyrayt.pin(*[e[0] for e in self.alive[-3:]]):
                self.do("move", ctx)
        elif op == "drop":       # objects that nobody holds any more
            cg.Sphere(1), pc.biconvex_lens(2, 2, 0.1)
            self.alive = self.alive[:-1] if self.alive and self.alive[-1] not in self.free else self.alive
        elif op == "trace" and self.free:
            pyrayt.RayTracer(pc.LineOfRays(0.5).move_x(-5), [e[0] for e in self.free], rays_per_source=3).trace()
        elif op == "render" and self.free:
            cg.renderers.EdgeRender(cg.OrthographicCamera(3, 2, 1).move_x(-5), [e[0] for e in self.free]).render()
        elif op == "fail":
            for bad in (lambda: pc.baffle((1, -1)), lambda: cg.Sphere(1).scale(0, 1, 1), lambda: cg.Sphere()):
                try:
                    bad()
                except (TypeError, ValueError):
                    pass

    def ids(self, e):
        return list(e[2]) if e[2] is not None else [i for i, _ in e[0].surface_ids]


def audit(ctx, w):
    ids = [e[0].get_id() for e in w.alive]
    known = set(w.surfaces)
    hidden = []
    for e in w.free:
        got = e[0].surface_ids
        if not ctx.expect(all(len(x) == 2 for x in got), "surface_ids is not a list of pairs"):
            return
        if e[2] is not None:
            ctx.expect(sorted(i for i, _ in got) == sorted(e[2]), "an object lists other surfaces than it was made of",
                       got=[i for i, _ in got], want=e[2])
        for i, s in got:
            ctx.expect(s.get_id() == i, "a surface is listed under another id", listed=i, own=s.get_id())
            if i in w.surfaces:
                ctx.expect(s is w.surfaces[i], "an id leads to another surface")
            else:
                hidden.append((i, s))
    every = {}
    for i, o in [(e[0].get_id(), e[0]) for e in w.alive] + hidden + list(w.surfaces.items()):
        ctx.expect(every.setdefault(i, o) is o, f"two objects have the id {i}", kinds=[type(o).__name__, type(every[i]).__name__])
    ctx.expect(ids == [e[1] for e in w.alive], "the id of an object has changed")
    ctx.expect(all(isinstance(i, (int, np.integer)) and i >= 0 for i in every), "an id is not a number from 0 up")
    ctx.nontrivial += len(every) > 1
    ctx.count(f"{min(len(every), 12)} objects")


def traced(ctx, w):
    """line all free objects up and look each of them up in the results"""
    if not w.free:
        return
    for k, e in enumerate(w.free):
        e[0].move(0, 10 * k, 0)
    g = np.array([(-20, 10 * k + y, z) for k in range(len(w.free)) for y in (-0.31, -0.2, 0.013, 0.17, 0.28) for z in (0.021, -0.26, 0.23)])
    src = trace.Fixed(g, np.tile((1.0, 0, 0), (len(g), 1)))
    df = pyrayt.RayTracer(src, [e[0] for e in w.free], rays_per_source=len(g), generation_limit=1).trace()
    got = df[["id", "surface"]].to_numpy()
    for k, e in enumerate(w.free):
        mine = {i for i, _ in e[0].surface_ids}
        rows = got[(got[:, 0] // 15) == k]
        ctx.expect(set(rows[:, 1].astype(int)) <= mine, "a row names a surface of another object", got=sorted(set(rows[:, 1])),
                   want=sorted(mine))
        ctx.evaluations += len(rows)
        ctx.count("rows", len(rows))


def history(ctx, seq):
    w = World()
    for op in seq:
        w.do(op, ctx)
        audit(ctx, w)
    traced(ctx, w)


def run(ctx):
    t = ctx.thorough
    small = ["sphere", "plane", "biconvex", "line", "union", "difference", "group", "trace", "pin", "drop", "move"]
    plans = [(list(MAKE) + OTHER, 3 if t else 2), (small, 5 if t else 3)]
    done = set()
    for alphabet, depth in plans:
        for seq in core.sequences(alphabet, depth, 1):
            if seq in done or (set(seq) <= set(OTHER)):
                continue
            done.add(seq)
            if ctx.selected({"ops": seq}):
                with ctx.case({"ops": seq}, steps=len(seq)):
                    history(ctx, seq)
    # trees: several primitives, then every order of combining them
    ops = ["union", "difference", "intersect", "sphere", "plano"]
    for start in (("sphere", "cuboid", "cylinder"), ("plane", "own", "stop"), ("prism", "sphere", "thick", "plane")):
        for seq in core.sequences(ops, 5 if t else 4, 1):
            if ctx.selected({"start": start, "ops": seq}):
                with ctx.case({"start": start, "ops": seq}, steps=len(start) + len(seq)):
                    history(ctx, start + seq)
    for n in (50, 2000):
        for kind in MAKE:
            if ctx.selected({"many": kind, "n": n}):
                with ctx.case({"many": kind, "n": n}, steps=n):
                    w = World()
                    for _ in range(n if kind in SURFACE else 50):
                        w.do(kind, ctx)
                    audit(ctx, w)
    # very many objects alive at the same time
    for n, kind in core.product((70000, 140000) if not t else (70000, 140000, 1100000), ("plain", "sphere", "mixed")):
        data = {"alive": n, "kind": kind}
        if (kind == "plain" or n < 100000) and ctx.selected(data):
            with ctx.case(data, steps=n):
                make = [NOTHING] if kind == "plain" else [cg.Sphere] if kind == "sphere" else [cg.Sphere, cg.ObjectGroup, pc.Lamp, cg.XYPlane, NOTHING]
                args = {cg.Sphere: (1,), pc.Lamp: (1, 1), cg.XYPlane: (1, 1)}
                crowd = [make[k % len(make)](*args.get(make[k % len(make)], ())) for k in range(n if kind == "plain" else n // 2 if kind == "mixed" else n)]
                ids = [o.get_id() for o in crowd]
                ctx.evaluations += len(ids)
                ctx.nontrivial += 1
                ctx.count("a crowd")
                ctx.expect(len(set(ids)) == len(ids), "two objects alive at the same time have the same id", objects=len(ids), ids=len(set(ids)))
    # a session in which very many objects have come and gone
    for n in (130, 33000, 66000) if not t else (130, 33000, 66000, 17_000_000):
        for seq in core.sequences(["sphere", "plane", "biconvex", "union", "difference", "stop"], 4 if t else 3, 1):
            if ctx.selected({"after": n, "ops": seq}):
                with ctx.case({"after": n, "ops": seq}, steps=len(seq)):
                    start = cg.WorldObject().get_id()
                    for _ in range(max(0, n - start)):
                        NOTHING()
                    history(ctx, seq)
                    history(ctx, seq)       # two of each
