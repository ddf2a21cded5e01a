"""C05: results depend on the configuration only.  All operation sequences over the tracer, its sources and components."""
import itertools
import numpy as np
import pyrayt
import pyrayt.components as pc
import tinygfx.g3d as cg
from pyrayt import materials as matl
from mc import core, trace

LEVEL = "model_checking"
RULE = ("state = tracer after a sequence of operations (trace, reset, settings, loading, editing and moving of sources and "
        "components); after every operation the getters are compared with the configuration of the model, every trace with that of a "
        "fresh tracer built from the configuration, and all results kept from before with their copies; non-trivial = a trace compared")
ASSUMPTIONS = ["the component list given to the tracer stays the tracer's list (documented as a view by get_system)"]
COLS = list(trace.COLS)


class World:
    """a tracer and the objects around it; one per history"""

    def __init__(self, single=False):
        self.lens = pc.biconvex_lens(4, 4, 0.6, aperture=2.0, material=matl.glass["BK7"]).move_x(2)
        self.ball = cg.Sphere(0.8, material=matl.glass["SF5"]).move(5, 0.1, 0)
        self.stop = pc.baffle((5, 5)).move_x(9)
        self.flat = pc.plane_mirror(0.3, aperture=4.0).rotate_z(150).move_x(7)
        self.line = pc.LineOfRays(0.7, wavelength=0.45)
        self.cone = pc.ConeOfRays(7, wavelength=0.6).move_x(-1)
        self.sources = self.line if single is True else [self.line, self.cone]
        self.comps = [self.lens, self.stop]
        self.n, self.limit = 3, 4
        given = self.sources, self.comps
        if single == "iter":
            self.comps = tuple(self.comps)
            given = (s for s in self.sources), iter(self.comps)
        elif single == "views":
            self.comps = tuple(self.comps)
            given = dict(enumerate(self.sources)).values(), dict.fromkeys(self.comps)
        self.tr = pyrayt.RayTracer(*given, rays_per_source=self.n, generation_limit=self.limit)
        self.kept = []            # (frame, its copy)
        self.traced = None        # what get_results must return: a copy, or None if there is nothing
        self.ids = False
        self.moves = 0

    def model_components(self):
        return list(self.comps) if isinstance(self.comps, (list, tuple)) else [self.comps]

    def crowd(self, n):
        """n further balls beside the beam, one of them in it"""
        return [cg.Sphere(0.1, material=matl.mirror).move(*((3, 4 + 0.3 * (k % 9), 0.25 * (k // 9)) if k != n // 3 else (3, 0.2, 0))) for k in range(n)]

    def fresh(self):
        srcs = self.sources
        return pyrayt.RayTracer(srcs, self.model_components(), rays_per_source=self.n,
                                generation_limit=self.limit).trace()

    def poses(self):
        objs = [self.lens, self.ball, self.stop, self.flat, self.line, self.cone]
        return [o.get_world_transform() for o in objs] + [np.array([self.line.wavelength, self.cone.wavelength])]


def op_trace(w, ctx):
    before = w.poses()
    want = w.fresh()
    got = w.tr.trace()
    same_frame(ctx, got, want, "a trace differs from that of a fresh tracer")
    ctx.nontrivial += 1
    ctx.count(f"{len(want)} rows")
    ctx.expect(all(np.array_equal(a, b) for a, b in zip(before, w.poses())), "tracing changed sources or components")
    w.kept.append((got, got.copy(deep=True)))
    w.traced = got.copy(deep=True)
    w.ids = False


def op_trace_twice(w, ctx):
    op_trace(w, ctx)
    a = w.traced
    op_trace(w, ctx)
    same_frame(ctx, w.traced, a, "tracing again gives other results")


def op_reset(w, ctx):
    w.tr.reset()
    w.traced = None


def op_more(w, ctx):
    w.n = 5 if w.n != 5 else 2
    w.tr.set_rays_per_source(w.n)


def op_none(w, ctx):
    w.n = 0
    w.tr.set_rays_per_source(w.n)


def op_one(w, ctx):
    w.n = 1
    w.tr.set_rays_per_source(np.int64(1))


def op_limit1(w, ctx):
    w.limit = 1
    w.tr.set_generation_limit(1)


def op_limit(w, ctx):
    w.limit = 2 if w.limit != 2 else 5
    w.tr.set_generation_limit(w.limit)


def op_load(w, ctx):
    w.comps = [w.ball, w.flat, w.lens]
    w.tr.load_components(w.comps)


def op_load_one(w, ctx):
    w.comps = w.flat
    w.tr.load_components(w.flat)


def op_load_tuple(w, ctx):
    w.comps = (w.stop, w.ball)
    w.tr.load_components(w.comps)


def op_load_iter(w, ctx):
    w.comps = (w.ball, w.stop)
    w.tr.load_components(map(lambda x: x, w.comps))


def op_load_many(w, ctx):
    w.comps = w.crowd(90) + [w.lens, w.flat] + w.crowd(7)
    w.tr.load_components(w.comps)


def op_edit(w, ctx):
    if isinstance(w.comps, list):
        # get_system is a view of the components: what is edited there is what will be traced
        want = list(w.comps)
        new = w.ball if w.ball not in w.comps else w.flat
        if new not in w.comps:
            w.tr.get_system().append(new)
            want.append(new)
        else:
            w.tr.get_system().pop(0)
            want.pop(0)
        w.comps = want if len(want) != len(w.comps) else w.comps


def op_swap(w, ctx):
    """replace a component by a new object"""
    if isinstance(w.comps, list):
        w.comps[-1] = cg.Sphere(0.5, material=matl.mirror).move(4, 0.2, 0)


def op_swap_first(w, ctx):
    """a new object of as many surfaces, all others stay"""
    if isinstance(w.comps, list):
        n = len(tuple(w.comps[0].surface_ids))
        w.comps[0] = pc.biconvex_lens(3, 5, 0.5, aperture=2.0, material=matl.glass["SF5"]).move(2.2, 0.1, 0) if n > 1 else cg.Sphere(
            0.6, material=matl.glass["BK7"]).move(2.5, -0.1, 0)


def op_load_like(w, ctx):
    """another list, as long, of as many surfaces and with the same last component"""
    w.comps = list(w.model_components())
    op_swap_first(w, ctx)
    w.tr.load_components(w.comps)


def op_move_source(w, ctx):
    w.line.move_y(0.11).rotate_z(1.5)


def op_move_part(w, ctx):
    w.lens.move(0.3, -0.05, 0.02)
    w.flat.rotate_z(4)
    w.ball.scale(1.1, 0.9, 1)


def op_colour(w, ctx):
    w.line.wavelength = 0.7 if w.line.wavelength == 0.45 else 0.45


def op_material(w, ctx):
    w.ball.material = matl.glass["BK7"] if w.ball.material is matl.glass["SF5"] else matl.glass["SF5"]


def op_ids(w, ctx):
    # an empty result has no rays to assign
    if w.traced is not None and len(w.traced):
        w.tr.calculate_source_ids()


def op_scribble(w, ctx):
    """the user edits a result of their own"""
    if w.kept:
        frame, _ = w.kept[-1]
        mine = frame.copy(deep=True)
        mine["x1"] = 0.0
        mine.drop(mine.index, inplace=True)


OPS = {"trace": op_trace, "twice": op_trace_twice, "reset": op_reset, "rays": op_more, "no rays": op_none, "one ray": op_one, "limit1": op_limit1,
       "limit": op_limit, "load": op_load, "load one": op_load_one, "load tuple": op_load_tuple, "load iterator": op_load_iter, "load many": op_load_many, "edit": op_edit,
       "swap": op_swap, "swap first": op_swap_first, "load like": op_load_like, "move source": op_move_source, "move part": op_move_part, "colour": op_colour,
       "material": op_material, "ids": op_ids}
CORE = ["trace", "reset", "rays", "load", "edit", "ids"]
# settings that do not touch the same thing: at the deepest level only one order of neighbours is explored (quick)
COMMUTE = {("load", "rays"), ("edit", "rays"), ("reset", "rays"), ("ids", "rays"), ("reset", "reset"), ("ids", "ids"),
           ("reset", "ids"), ("reset", "load"), ("ids", "load"), ("reset", "edit"), ("ids", "edit")}
PASSIVE = ("trace", "twice", "reset", "ids", "scribble")


def same_frame(ctx, got, want, what):
    ctx.evaluations += len(want)
    a, b = got[COLS].to_numpy(dtype=float), want[COLS].to_numpy(dtype=float)
    if a.shape != b.shape:
        ctx.fail(f"{what}: {a.shape[0]} rows instead of {b.shape[0]}")
        return
    key = lambda m: m[np.lexsort((m[:, 0], m[:, 4]))]
    a, b = key(a), key(b)
    if not np.allclose(a, b, rtol=1e-9, atol=1e-9):
        r = int(np.nonzero(~np.isclose(a, b, rtol=1e-9, atol=1e-9).all(axis=1))[0][0])
        ctx.fail(what, row=r, got=dict(zip(COLS, a[r])), want=dict(zip(COLS, b[r])))


def audit(w, ctx):
    t = w.tr
    ctx.expect(t.get_rays_per_source() == w.n, "get_rays_per_source is not the value set", got=t.get_rays_per_source(), want=w.n)
    ctx.expect(t.get_generation_limit() == w.limit, "get_generation_limit is not the value set",
               got=t.get_generation_limit(), want=w.limit)
    system = list(t.get_system())
    want = w.model_components()
    ctx.expect(len(system) == len(want) and all(a is b for a, b in zip(system, want)),
               "get_system differs from the current components")
    res = t.get_results()
    if w.traced is None:
        ctx.expect(len(res) == 0, f"{len(res)} rows of results although none were traced (or after a reset)")
    else:
        same_frame(ctx, res, w.traced, "get_results differs from the last trace")
    for frame, copy in w.kept:
        same_frame(ctx, frame, copy, "a result kept from an earlier trace has changed")


def history(ctx, ops, single):
    w = World(single)
    audit(w, ctx)
    for op in ops:
        OPS[op](w, ctx)
        audit(w, ctx)
    if not ops or ops[-1] not in ("trace", "twice"):
        op_trace(w, ctx)
        audit(w, ctx)
    # the same configuration reached with new objects, and nothing traced on the way
    if any(op in PASSIVE for op in ops):
        v = World(single)
        for op in ops:
            if op not in PASSIVE:
                OPS[op](v, ctx)
        df = v.fresh()
        here, there = ([i for c in x.model_components() for i, _ in c.surface_ids] for x in (w, v))
        df["surface"] = df["surface"].map(dict(zip(there, here)))
        same_frame(ctx, w.traced, df, "a trace differs from that of new objects in the same configuration")


def run(ctx):
    plans = [(list(OPS), 3 if ctx.thorough else 2, False), (CORE, 5 if ctx.thorough else 4, False),
             (["trace", "reset", "rays", "load one", "limit", "edit", "swap"], 4 if ctx.thorough else 3, True),
             (["trace", "reset", "rays", "load iterator", "load", "ids"], 4 if ctx.thorough else 3, "iter"),
             (["trace", "reset", "load iterator", "load one"], 3 if ctx.thorough else 2, "views"),
             (["trace", "no rays", "one ray", "rays", "reset", "ids", "edit"], 4 if ctx.thorough else 3, False),
             (["trace", "swap first", "load like", "reset", "load one"], 4 if ctx.thorough else 3, False),
             (["trace", "swap first", "load like", "load iterator"], 4 if ctx.thorough else 3, "iter"),
             (["trace", "no rays", "one ray", "load one"], 4 if ctx.thorough else 3, True),
             (["trace", "load", "load tuple", "swap", "material", "move part"], 4 if ctx.thorough else 3, False)]
    for k, (alphabet, depth, single) in enumerate(plans):
        for ops in core.sequences(alphabet, depth):
            if not ctx.thorough and len(ops) > 3 and any(p in COMMUTE for p in zip(ops, ops[1:])):
                continue
            data = {"ops": list(ops), "single": single, "plan": k}
            if ctx.selected(data):
                with ctx.case(data, steps=len(ops) + 1):
                    history(ctx, ops, single)
