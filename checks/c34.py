"""C34: crash points.  Traces, renders and queries are cut short at every point; what comes after must not notice."""
import itertools
import matplotlib
import matplotlib.pyplot as plt
import numpy as np
import pyrayt
import pyrayt.components as pc
import tinygfx.g3d as cg
from pyrayt import materials as matl
from tinygfx.g3d.materials import color, gooch
from mc import core, sched, trace

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of crash points and fault sequences of the real code, each followed by a comparison with a fresh run"
RULE = ("state = work (trace, render, emit, query, plot, pinned block) x crash point: before every instruction that can touch shared "
        "state (an interrupt) or at every call of a user's own component, material or source (an error of any kind), alone and in "
        "sequences of two; afterwards settings, poses, boxes, emissions and kept results are as before and the work done again gives "
        "what it gives in a fresh world; non-trivial = the work really was cut short")
ASSUMPTIONS = ["numpy and pandas operations are not cut in the middle", "moves cut in the middle are not covered (no object promises to undo them)"]
COLS = list(trace.COLS)


class Faulty:
    """raises at its n-th use"""

    def __init__(self):
        self.now = 0, None
        self.plan = []          # [(number of the use, error)], one per run of the work
        self.uses = 0

    def start(self):
        self.uses = 0
        self.now = self.plan.pop(0) if self.plan else (0, None)

    def use(self):
        self.uses += 1
        if self.uses == self.now[0]:
            raise self.now[1]("fault")


class FaultyBall(cg.Sphere):
    fault = None

    def intersect(self, rays):
        self.fault.use()
        out = super().intersect(rays)
        self.fault.use()
        return out

    def get_world_normals(self, positions):
        if self.fault is not None:
            self.fault.use()
        return super().get_world_normals(positions)


class FaultyGlass(matl.BasicRefractor):
    fault = None

    def trace(self, surface, ray_set):
        self.fault.use()
        out = super().trace(surface, ray_set)
        self.fault.use()
        return out


class FaultySource(pc.LineOfRays):
    fault = None

    def generate_rays(self, n):
        self.fault.use()
        out = super().generate_rays(n)
        self.fault.use()
        return out


class FaultyPaint(gooch.GoochMaterial):
    fault = None

    def shade(self, *args, **kwargs):
        self.fault.use()
        return super().shade(*args, **kwargs)


class World:
    def __init__(self, faulty=False):
        self.fault = Faulty()
        if faulty:
            ball = FaultyBall(0.9, material=FaultyGlass(1.5)).move_x(1)
            ball.fault = ball.material.fault = self.fault
            second = FaultyBall(0.5, material=matl.mirror).move(3, 0, 0)
            second.fault = self.fault
            line = FaultySource(0.5, wavelength=0.45).move_x(-3)
            line.fault = self.fault
        else:
            ball = cg.Sphere(0.9, material=matl.glass["BK7"]).move_x(1)
            second = cg.Cuboid((0, 0, 0), (0.5, 1, 1), material=matl.mirror).rotate_z(12).move(2.7, -0.4, -0.3)
            line = pc.LineOfRays(0.5, wavelength=0.45).move_x(-3)
        self.lens = cg.csg.difference(ball, second)
        self.screen = cg.XYPlane(20, 20, material=matl.absorber).rotate_y(90).move_x(6)
        self.comps = [self.lens, self.screen]
        self.lamp = pc.StaticLamp(0.5, 0.5, 20).move_x(-2)
        self.sources = [line, self.lamp]
        self.n, self.limit = 2, 3
        self.parts = [ball, second]
        self.tracer = pyrayt.RayTracer(self.sources, self.comps, rays_per_source=self.n, generation_limit=self.limit)
        self.camera = cg.OrthographicCamera(4, 2, 1).move(-5, 0, 0)
        self.kept = []

    def change(self):
        """what a user may do before the next try"""
        self.camera.move(0, 0.5, 0.2), self.lens.move_y(0.3).rotate_z(5), self.screen.move_x(1)
        self.sources[0].move_z(0.2), self.lamp.move_x(-0.5)
        self.sources[0].wavelength = 0.52
        self.tracer.set_generation_limit(2)

    def state(self):
        """everything that work has to leave as it is"""
        objs = self.parts + self.comps + self.sources
        out = [o.get_world_transform() for o in objs] + [o.get_object_transform() for o in objs]
        out += [np.array(o.bounding_box.axis_spans) for o in (self.parts + [self.lens])]
        out += [self.tracer.get_rays_per_source(), self.tracer.get_generation_limit(), pyrayt.RayTracer.ray_offset_value,
                pyrayt.RayTracer.ray_intensity_threshold, self.tracer.ray_intensity_threshold, self.tracer.ray_offset_value,
                self.sources[0].wavelength, self.lamp.wavelength, [s.get_id() for s in objs], [i for c in self.comps for i, _ in c.surface_ids]]
        same_list = self.tracer.get_system() is self.comps and len(self.comps) == 2 and len(self.sources) == 2
        return [np.array(x) for x in out] + [np.array(same_list)]

    def keep(self):
        df = self.tracer.get_results()
        self.kept.append((df, df.copy(deep=True)))


def number(w, df):
    ids = [i for c in w.comps for i, _ in c.surface_ids]
    m = df[COLS].to_numpy(dtype=float)
    k = COLS.index("surface")
    m[:, k] = [ids.index(int(v)) if int(v) in ids else -2 for v in m[:, k]]
    return m


RAYS = np.zeros((2, 4, 5))
RAYS[0, :3] = [[-4] * 5, [0, 0.2, 0.5, -0.3, 0.1], [0, 0.1, 0, 0.2, -0.6]]
RAYS[0, 3], RAYS[1, 0], RAYS[1, 1] = 1, 1, [0, 0.05, 0, 0.02, 0]


def w_trace(w):
    w.fault.start()
    return number(w, w.tracer.trace())


def w_emit(w):
    w.fault.start()
    return [np.array(s.generate_rays(2)) for s in w.sources + [pc.ConeOfRays(5).rotate_y(10), pc.CircleOfRays(1), pc.WedgeOfRays(4)]]


def w_query(w):
    w.fault.start()
    h, i = w.lens.intersect(RAYS)
    ids = [-1] + [k for k, _ in w.lens.surface_ids]
    return [h, np.array([ids.index(k) for k in i.ravel()]), w.parts[0].get_world_normals(RAYS[0]), w.parts[1].get_world_normals(RAYS[0])]


def w_shaded(w):
    w.fault.start()
    if not hasattr(w, "shaded"):
        for p, m in zip(w.parts + [w.screen], (gooch.RED, gooch.BLUE, gooch.RED)):
            p.material = m
        if isinstance(w.parts[0], FaultyBall):
            w.parts[0].material = FaultyPaint(color.RED)
            w.parts[0].material.fault = w.fault
        w.shaded = cg.renderers.ShadedRenderer(w.camera, w.comps, light_position=cg.Point(-3, 4, 5))
    return w.shaded.render()


def w_edges(w):
    w.fault.start()
    if not hasattr(w, "edge"):
        w.edge = cg.renderers.EdgeRender(w.camera, w.comps)
    return w.edge.render()


def picture(w, **kwargs):
    fig = plt.figure()
    ax = fig.add_subplot()
    try:
        w.tracer.show(axis=ax, resolution=6, **kwargs)
        arrows = [(np.array(q.X), np.array(q.U), np.array(q.V)) for q in ax.collections if isinstance(q, matplotlib.quiver.Quiver)]
        return [np.array(ax.images[0].get_array(), dtype=float), np.array(ax.images[0].get_extent()), len(arrows)] + [x for a in arrows for x in a]
    finally:
        plt.close(fig)


def w_show(w):
    w.fault.start()
    return picture(w, color_function="wavelength")


def w_retrace(w):
    """other settings, another trace and the numbers of the sources"""
    w.fault.start()
    t = pyrayt.RayTracer(w.sources[::-1], w.comps, rays_per_source=3, generation_limit=2)
    t.trace()
    t.calculate_source_ids()
    return [number(w, t.get_results()), np.array(t.get_results()["source_id"])]


def w_material(w):
    w.fault.start()
    rs = w.sources[0].generate_rays(3)
    out = []
    for m in (matl.glass["SF5"], matl.mirror, matl.absorber, w.parts[0].material):
        out.append(np.array(m.trace(w.parts[0], rs.copy())))
    return out + [matl.glass["SF5"].abbe(), np.array(matl.glass["BK7"].index_at(np.array([0.4, 0.5])))]


def w_create(w):
    """new components are whole, with numbers of their own"""
    w.fault.start()
    lens = pc.plano_convex_lens(4, 0.5, aperture=1.0)
    both = cg.csg.union(cg.Sphere(1), lens)
    ids = [i for i, _ in both.surface_ids]
    others = [i for c in w.comps for i, _ in c.surface_ids]
    return [both.intersect(RAYS)[0], len(set(ids)), len(set(ids) & set(others)), both.get_world_transform()]


WORK = {f.__name__[2:]: f for f in (w_trace, w_emit, w_query, w_edges, w_shaded, w_show, w_retrace, w_material, w_create)}
FAULTS = ("trace", "query", "edges", "shaded", "show", "retrace")


def same(a, b):
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=1e-9, atol=1e-9, equal_nan=True))


def world(faulty, traced):
    np.random.seed(11)
    w = World(faulty)
    w.lamp.generate_rays(2), w.lamp.generate_rays(3)      # the patterns the lamp keeps
    if traced:
        w.fault.start()
        w.tracer.trace()
        w.keep()
    return w


def reference(faulty, name, traced):
    """in fresh worlds: the work, the trace that comes after it, plots, and work and trace once the world has changed"""
    w, v, u = world(faulty, traced), world(faulty, traced), world(faulty, traced)
    v.change(), u.change()
    return [WORK[name](w), w_trace(world(faulty, traced)), picture(world(faulty, False)), picture(world(faulty, True)),
            WORK[name](v), w_trace(u)]


def after(ctx, w, name, before, ref, change):
    now = w.state()
    names = "same settings, poses and boxes"
    ctx.expect(all(np.array_equal(a, b) for a, b in zip(before, now)), f"{name} cut short leaves something changed ({names})",
               changed=[(a.tolist(), b.tolist()) for a, b in zip(before, now) if not np.array_equal(a, b)][:2])
    for df, copy in w.kept:
        ctx.expect(df.equals(copy), f"{name} cut short changes results kept from before")
    if change:
        w.change()
        ref = ref[4:]
    elif name in ("trace", "show", "retrace"):
        w.fault.start()
        p = picture(w)
        ctx.expect(same(p, ref[2]) or same(p, ref[3]), f"after {name} is cut short, a plot shows neither a whole trace nor the components alone")
    got = WORK[name](w)
    ctx.expect(same(got, ref[0]), f"{name} after {name} was cut short{' and the scene changed' if change else ''} is not what it is otherwise", got=_short(got), want=_short(ref[0]))
    if name != "shaded":        # that one is painted, it has no optical materials
        got = w_trace(w)
        ctx.expect(same(got, ref[1]), f"a trace after {name} was cut short differs from that of a fresh tracer", got=_short(got), want=_short(ref[1]))
        ctx.expect(same(number(w, w.tracer.get_results()), got), f"after {name} was cut short, the tracer keeps other results than it returned")
        for df, copy in w.kept:
            ctx.expect(df.equals(copy), f"the trace after {name} was cut short changes results kept from before")


def _short(x):
    if isinstance(x, (list, tuple)):
        return [_short(v) for v in x[:4]]
    return np.asarray(x, dtype=float).ravel()[:12].tolist()


def cut(ctx, name, traced, points, grain, ref, change):
    w = world(False, traced)
    before = w.state()
    for p in points:
        reached = sched.crash(lambda: WORK[name](w), p, grain=grain)
        plt.close("all")
        if reached:
            ctx.nontrivial += 1
            ctx.count(f"{name} cut")
    after(ctx, w, name, before, ref, change)


class Oops(Exception):
    pass


ERRORS = {"Oops": Oops, "ValueError": ValueError, "KeyboardInterrupt": KeyboardInterrupt, "StopIteration": StopIteration, "KeyError": KeyError,
          "AttributeError": AttributeError, "ZeroDivisionError": ZeroDivisionError, "IndexError": IndexError, "TypeError": TypeError,
          "FloatingPointError": FloatingPointError, "RuntimeError": RuntimeError, "LinAlgError": np.linalg.LinAlgError}


def fault(ctx, name, traced, faults, ref, change):
    w = world(True, traced)
    before = w.state()
    w.fault.plan = [(k, ERRORS[e]) for k, e in faults]
    for k, e in faults:
        try:
            WORK[name](w)
        except ERRORS[e] as x:
            ctx.expect(x.args == ("fault",), f"{name}: another error than that of the user's object", error=repr(x))
            ctx.nontrivial += 1
            ctx.count(f"{name} fails")
        else:
            ctx.expect(w.fault.uses < k, f"{name}: the error of the user's object does not reach the caller", use=k, error=e)
        plt.close("all")
    after(ctx, w, name, before, ref, change)


def crash_part(ctx):
    for name in WORK:
        for traced in ((False, True) if ctx.thorough else (True,)):
            ref = None
            n = {}
            w = world(False, traced)
            if name not in ("shaded", "edges"):
                WORK[name](w)
            for g in sched.GRAINS:
                n[g] = sched.steps_of(lambda: WORK[name](world(False, traced) if name in ("shaded", "edges") else w), g)
            grain = "fine" if ctx.thorough or n["fine"] < 400 else "line" if n["line"] < 1000 or name == "trace" else "call"
            single = [([p], grain) for p in range(1, n[grain] + 1)]
            most = 20 if ctx.thorough else 5
            some = core.sub_grid(range(1, n["call"] + 1), most)
            double = [([p, q], "call") for p, q in itertools.product(some, some)]
            runs = [(*x, False) for x in single + double] + [(*x, True) for x in single]
            for points, g, change in runs:
                data = {"work": name, "traced": traced, "grain": g, "points": points, "changed": change}
                if ctx.selected(data):
                    ref = ref or reference(False, name, traced)
                    with ctx.case(data, steps=len(points) + 2):
                        cut(ctx, name, traced, points, g, ref, change)


def fault_part(ctx):
    for name in FAULTS:
        for traced in (False, True):
            ref = None
            w = world(True, traced)
            if name == "shaded":
                WORK[name](w)
            WORK[name](w)
            uses = w.fault.uses
            ones = [((k, e),) for k in range(1, uses + 1) for e in (ERRORS if ctx.thorough or name == "trace" else ("Oops", "KeyboardInterrupt", "ValueError"))]
            some = range(1, uses + 1) if ctx.thorough else core.sub_grid(range(1, uses + 1), 5)
            twos = [((k, "Oops"), (j, "KeyboardInterrupt")) for k in some for j in some]
            for faults, change in [(x, False) for x in ones + twos] + [(x, True) for x in ones]:
                data = {"work": name, "traced": traced, "faults": faults, "changed": change}
                if ctx.selected(data):
                    ref = ref or reference(True, name, traced)
                    with ctx.case(data, steps=len(faults) + 2):
                        fault(ctx, name, traced, faults, ref, change)


def pin_part(ctx):
    """a pinned block cut short after any number of its moves, from inside of any nested block"""
    depth = 4 if ctx.thorough else 3
    objs = ("lens", "screen", "line", "lamp", "part")
    moves = [(o, m) for o in objs[:4] for m in ("move_x", "rotate_y")]
    for seq in core.sequences(moves, depth - 1, 1):
        for at in range(len(seq) + 1):
            for nest in (0, 1):
                data = {"pin": seq, "at": at, "nested": nest}
                if not ctx.selected(data):
                    continue
                with ctx.case(data, steps=len(seq)):
                    w = world(False, False)
                    obj = {"lens": w.lens, "screen": w.screen, "line": w.sources[0], "lamp": w.lamp}
                    before = w.state()
                    e = Oops("x") if nest else sched.Interrupt("x")

                    def block():
                        with pyrayt.pin(*obj.values()):
                            for k, (o, m) in enumerate(seq):
                                if k == at:
                                    raise e
                                getattr(obj[o], m)(10 + k)
                            raise e
                    got = None
                    try:
                        if nest:
                            with pyrayt.pin(w.lens, w.lamp):
                                w.lens.rotate_z(30), w.lamp.move_z(2)
                                block()
                        else:
                            block()
                    except BaseException as x:
                        got = x
                    ctx.expect(got is e, "the error does not leave the pinned block", got=repr(got))
                    ctx.nontrivial += 1
                    ctx.count("pinned block cut")
                    now = w.state()
                    ctx.expect(all(np.allclose(a, b, rtol=1e-9, atol=1e-9) for a, b in zip(before, now)), "an error in a pinned block leaves objects moved")
                    if ctx.thorough or at == len(seq):
                        ctx.expect(same(w_trace(w), w_trace(world(False, False))), "a trace after an error in a pinned block differs")


def run(ctx):
    crash_part(ctx)
    fault_part(ctx)
    pin_part(ctx)
