"""C33: threads.  The real code runs in several threads under a controlled scheduler: all schedules up to a bound."""
import itertools
import numpy as np
import pyrayt
import pyrayt.components as pc
import pyrayt.utils as pu
import tinygfx.g3d as cg
from pyrayt import materials as matl
from tinygfx.g3d.materials import gooch, color
from mc import core, sched, trace

LEVEL = "model_checking"
TECHNIQUE = "stateless model checking: exhaustive enumeration of thread schedules of the real code under a controlled scheduler"
RULE = ("state = scenario of two or three threads using shared objects x schedule: every schedule with one switch before any "
        "instruction that can touch shared state, in both orders, and every schedule with two (thorough: also three threads) "
        "switches at calls; every thread must get what it gets alone, and so must the threads run once more afterwards; "
        "non-trivial = a schedule in which a thread really was interrupted")
ASSUMPTIONS = ["a thread is switched only between instructions of this library; numpy and pandas operations are atomic (as under the "
               "interpreter lock)", "objects are not moved or changed while another thread uses them"]

COLS = list(trace.COLS)


def rays(seed, n=3):
    r = np.zeros((2, 4, n))
    t = np.arange(n) + seed
    r[0, :3] = -3 + 0.1 * t, 0.2 * np.sin(t), 0.15 * np.cos(1.3 * t)
    r[0, 3] = 1
    d = np.stack((np.ones(n), 0.05 * np.cos(t), 0.04 * np.sin(2 * t)))
    r[1, :3] = d / np.linalg.norm(d, axis=0)
    return r


def frame(tracer, comps):
    """results with the surfaces numbered by their place in the components"""
    df = tracer.trace()
    ids = [i for c in comps for i, _ in c.surface_ids]
    m = df[COLS].to_numpy(dtype=float)
    k = COLS.index("surface")
    m[:, k] = [ids.index(int(v)) if int(v) in ids else -2 for v in m[:, k]]
    return m


def tracing(comps, sources, n=2, limit=2):
    t = pyrayt.RayTracer(sources, comps, rays_per_source=n, generation_limit=limit)
    return lambda: frame(t, comps)


def glass_ball():
    return cg.Sphere(1, material=matl.glass["BK7"])


def s_ball():
    """two tracers, one lens, different colors"""
    c = [glass_ball()]
    return [tracing(c, pc.LineOfRays(0.5, wavelength=0.45).move_x(-3)),
            tracing(c, pc.LineOfRays(0.9, wavelength=0.7).move(-3, 0.1, 0.2), 3)]


def s_parts():
    """two tracers, one composite of every kind of surface"""
    c = [cg.csg.difference(cg.Cuboid(material=matl.glass["SF5"]), cg.Cylinder(0.4, -2, 2, material=matl.mirror)).rotate_z(20),
         cg.XYPlane(9, 9, material=matl.absorber).rotate_y(90).move_x(3), cg.Paraboloid(1, 2, material=matl.mirror).move(0, 0, -3)]
    return [tracing(c, pc.LineOfRays(0.6).move_x(-3), 2, 1), tracing(c, pc.ConeOfRays(9).move(-4, 0.3, 0.2), 3, 1)]


def s_sources():
    """two tracers share their sources"""
    src = [pc.LineOfRays(0.5).move_x(-3), pc.ConeOfRays(4).move_x(-4), pc.WedgeOfRays(5, wavelength=0.5).move_x(-3),
           pc.CircleOfRays(0.6).move_x(-2)]
    c = [cg.XYPlane(30, 30, material=matl.absorber).rotate_y(90)]
    return [tracing(c, src, 2, 1), tracing(c, src[::-1], 3, 1)]


def s_emit():
    """sources emit directly"""
    src = [pc.LineOfRays(0.5).move_x(-3), pc.ConeOfRays(4).rotate_y(20), pc.WedgeOfRays(5).move_y(1), pc.CircleOfRays(0.6)]
    return [lambda: [np.array(s.generate_rays(3)) for s in src], lambda: [np.array(s.generate_rays(5)) for s in src]]


def s_static():
    """a shared static lamp: one pattern per count, also later on"""
    lamp = pc.StaticLamp(1, 2, 40)

    def a():
        x = np.array(lamp.generate_rays(3))
        return [x - np.array(lamp.generate_rays(3)), x[12]]

    def b():
        x, y = np.array(lamp.generate_rays(3)), np.array(lamp.generate_rays(4))
        b.seen = x
        return [x - np.array(lamp.generate_rays(3)), y - np.array(lamp.generate_rays(4))]
    return [a, b, lambda: np.array(lamp.generate_rays(3)) - b.seen]


def s_lamps():
    """lamps with their own numbers"""
    one, two = pc.Lamp(1, 1, 0), pc.Lamp(1, 1, 0)

    def check(lamp):
        x = np.array(lamp.generate_rays(4))
        return [x[4:], np.abs(x[1:3]) <= 0.5, len(set(x[1])) == 4]
    return [lambda: check(one), lambda: check(two), lambda: check(one)]


def s_surfaces():
    """queries of all primitives"""
    c = [cg.Sphere(1), cg.Cylinder(1, -1, 1).rotate_y(30), cg.Cuboid().rotate_z(20), cg.Paraboloid(1, 2).rotate_y(70), cg.XYPlane(3, 3).rotate_y(80)]

    def ask(seed, n, order):
        out = []
        for s in c[::order]:
            h, i = s.intersect(rays(seed, n))
            out += [h, i - s.get_id()]
            p = rays(seed, n)
            out.append(s.get_world_normals(p[0] + np.where(np.isfinite(h[0]), h[0], 0) * p[1]))
        return out
    return [lambda: ask(1, 3, 1), lambda: ask(7, 4, -1)]


def s_composite():
    """queries of one composite"""
    a, b = cg.Sphere(1), cg.Cylinder(0.5, -2, 2)
    c = cg.csg.union(cg.csg.difference(a, b), cg.csg.intersect(cg.Cuboid((0, 0, 0), (2, 2, 2)), cg.Sphere(1.5)))

    def ask(seed, n):
        h, i = c.intersect(rays(seed, n))
        ids = [-1] + [k for k, _ in c.surface_ids]
        return [h, [ids.index(k) for k in i.ravel()], np.array(c.bounding_box.axis_spans), len(set(ids))]
    return [lambda: ask(1, 3), lambda: ask(5, 4)]


def camera(n=3):
    return cg.OrthographicCamera(n, 3, 1).move_x(-5)


def s_render():
    """renderers of one scene, shaded and edges"""
    c = [cg.Sphere(1, material=gooch.RED), cg.Cuboid((0, 0, 0), (1, 1, 1), material=gooch.BLUE)]
    cam = camera()
    return [lambda: cg.renderers.ShadedRenderer(cam, c, light_position=cg.Point(3, 4, 5)).render(),
            lambda: cg.renderers.EdgeRender(cam, c).render()]


def s_shaded():
    """two shaded renderers with different lights and cameras"""
    c = [cg.csg.difference(cg.Sphere(1, material=gooch.RED), cg.Cuboid((0, 0, 0), (1, 1, 1), material=gooch.BLUE))]
    return [lambda: cg.renderers.ShadedRenderer(camera(), c, light_position=cg.Point(-3, 4, 5)).render(),
            lambda: cg.renderers.ShadedRenderer(camera(4), c, light_position=cg.Point(-9, -4, 1)).render()]


def s_mixed():
    """a tracer and a renderer"""
    c = [glass_ball()]
    return [tracing(c, pc.LineOfRays(0.5, wavelength=0.45).move_x(-3)),
            lambda: cg.renderers.ShadedRenderer(camera(), c, light_position=cg.Point(-3, 4, 5)).render()]


def s_materials():
    """indices and interactions of shared materials"""
    s = cg.Sphere(1).scale(1, 2, 1)

    def ask(g, seed, n):
        rs = pyrayt.RaySet(n)
        r = rays(seed, n)
        t = s.intersect(r)[0][0]
        r[0] = r[0] + np.where(np.isfinite(t), t, 1) * r[1]
        rs.rays = r
        rs.wavelength = 0.4 + 0.1 * np.arange(n) + 0.01 * seed
        out = [g.index_at(0.4 + 0.05 * seed), np.array(g.index_at(rs.wavelength)), g.abbe()]
        for m in (g, matl.mirror, matl.absorber):
            x = m.trace(s, rs.copy())
            out += [np.array(x)]
        return out
    return [lambda: ask(matl.glass["BK7"], 1, 3), lambda: ask(matl.glass["BK7"], 2, 4), lambda: ask(matl.glass["SF5"], 2, 3)]


def s_shading():
    """shades of one material"""
    g = gooch.GoochMaterial(color.RED, color.ORANGE, color.BLUE)

    def ask(seed, n):
        r = rays(seed, n)
        return [np.array(g.shade(r, r[1], np.array([3.0, seed, 1, 1]))), pu.wavelength_to_rgb(np.linspace(0.4, 0.7, n) + 0.01 * seed),
                pu.wavelength_to_rgb(0.4 + 0.03 * seed), pu.lensmakers_equation(4 + seed, -5, 1.5, 0.2)]
    return [lambda: ask(1, 3), lambda: ask(4, 2)]


def s_equal():
    """two tracers with as many rays, of different sources"""
    c = [glass_ball(), cg.XYPlane(9, 9, material=matl.absorber).rotate_y(90).move_x(3)]
    return [tracing(c, pc.LineOfRays(0.5, wavelength=0.45).move_x(-3), 2, 1), tracing(c, pc.LineOfRays(0.9, wavelength=0.7).move(-4, 0.1, 0.2), 2, 3)]


def s_equal_surfaces():
    """as many rays at the same surfaces and composite"""
    c = [cg.Sphere(1), cg.Cylinder(1, -1, 1), cg.Cuboid(), cg.Paraboloid(1, 2).rotate_y(70), cg.XYPlane(3, 3).rotate_y(80)]

    def ask(seed):
        out = []
        for s in c:
            r = rays(seed, 3)
            h, i = s.intersect(r)
            out += [h, i - s.get_id(), s.get_world_normals(r[0] + np.where(np.isfinite(h[0]), h[0], 0) * r[1])]
        return out
    return [lambda: ask(1), lambda: ask(7)]


def s_equal_composite():
    c = cg.csg.union(cg.csg.difference(cg.Sphere(1), cg.Cylinder(0.5, -2, 2)), cg.csg.intersect(cg.Cuboid((0, 0, 0), (2, 2, 2)), cg.Sphere(1.5)))
    first = c.surface_ids[0][0]

    def ask(seed):
        h, i = c.intersect(rays(seed, 3))
        return [h, np.where(i >= 0, i - first, -9)]
    return [lambda: ask(1), lambda: ask(12)]


def s_equal_views():
    """renderers of one scene from two sides, as many pixels"""
    c = [cg.csg.union(cg.Sphere(1, material=gooch.RED), cg.Cuboid((0, 0, 0), (1, 1.2, 1.4), material=gooch.BLUE))]
    other = camera().rotate_z(90)
    return [lambda: cg.renderers.ShadedRenderer(camera(), c, light_position=cg.Point(-3, 4, 5)).render(),
            lambda: cg.renderers.ShadedRenderer(other, c, light_position=cg.Point(3, -4, 5)).render()]


def s_equal_edges():
    c = [cg.Sphere(1), cg.Cuboid((0, 0, 0), (1, 1.2, 1.4))]
    cams = [camera(5), camera(5).move_y(1)]
    return [lambda: cg.renderers.EdgeRender(cams[0], c).render(), lambda: cg.renderers.EdgeRender(cams[1], c).render()]


def s_equal_materials():
    """as many rays at the same materials"""
    s = cg.Sphere(1)
    x = pyrayt.RaySet(3)

    def ask(seed):
        rs, r, out = x.copy(), rays(seed, 3), []
        r[0] = r[0] + np.where(np.isfinite(s.intersect(r)[0][0]), s.intersect(r)[0][0], 1) * r[1]
        rs.rays, rs.wavelength, rs.index = r, 0.4 + 0.1 * np.arange(3) + 0.01 * seed, 1 + 0.1 * seed
        for m in (matl.glass["BK7"], matl.glass["ideal"], matl.mirror, matl.absorber):
            out.append(np.array(m.trace(s, rs.copy())))
        return out
    return [lambda: ask(1), lambda: ask(4)]


def s_equal_shading():
    g = gooch.GoochMaterial(color.RED, color.ORANGE, color.BLUE)
    s = cg.Sphere(1, material=g)

    def ask(seed):
        r = rays(seed, 3)
        return [np.array(g.shade(r, r[1], np.array([3.0, seed, 1, 1]))), pu.wavelength_to_rgb(np.linspace(0.4, 0.7, 3) + 0.01 * seed),
                np.array(s.shade(r, np.array([2.0, 2.1, 2.2]) + 0.01 * seed, light_positions=np.array([3.0, 1, seed, 1])))]
    return [lambda: ask(1), lambda: ask(4)]


def s_create_one():
    """single objects made in several threads"""
    made = []

    def make():
        objs = [cg.Sphere(1), pc.LineOfRays(1), cg.OrthographicCamera(3, 3, 1), cg.ObjectGroup()]
        made.extend(o.get_id() for o in objs)
        return len(set(made)) == len(made)
    return [make, make]


def s_move_one():
    """moves of single objects"""
    def make(k):
        o, c = cg.Sphere(k), cg.OrthographicCamera(3, 3, 1)

        def go():
            o.move(k, -1, 0.5).rotate_y(20 * k).scale(2, k, 0.5)
            c.rotate_z(15 * k)
            out = [o.get_world_transform(), o.get_object_transform(), np.array(o.bounding_box.axis_spans), c.get_world_transform()]
            o.transform(np.linalg.inv(o.get_world_transform())), c.rotate_z(-15 * k)
            return [np.round(x, 9) + 0.0 for x in out]
        return go
    return [make(2), make(5)]


def s_create():
    """objects made in several threads have different ids"""
    made = []

    def make():
        objs = [cg.Sphere(1), pc.LineOfRays(1), cg.csg.union(cg.Sphere(1), cg.XYPlane(1))]
        made.extend([o.get_id() for o in objs] + [i for i, _ in objs[2].surface_ids])
        return len(set(made)) == len(made)
    return [make, make]


def s_move():
    """moves of different objects"""
    def make(k):
        o = cg.csg.difference(cg.Sphere(1), cg.Cuboid((0, 0, 0), (1, 1, 1)))
        c = pc.ConeOfRays(5)

        def go():
            c.rotate_y(20).move_x(k).rotate_x(0.1 * k, "rad")
            o.move(k, -1, 0.5).scale(2, k, 0.5)
            w = o.get_world_transform()
            out = [w, o.get_object_transform(), o.get_position().copy(), np.array(o.bounding_box.axis_spans), o.get_orientation().copy()]
            out += [c.get_world_transform(), c.get_object_transform()]
            o.transform(np.linalg.inv(w)), c.transform(c.get_object_transform())
            return [np.round(x, 9) + 0.0 for x in out]
        return go
    return [make(2), make(5)]


def s_factories():
    """components made in several threads"""
    def make(k):
        def go():
            out = []
            for f in (lambda: pc.plano_convex_lens(4 + k, 0.5, aperture=1.0 + k), lambda: pc.baffle((2, 3 + k))):
                o = f()
                h, i = o.intersect(rays(k, 2))
                out += [h, i >= 0]
            return out
        return go
    return [make(1), make(2)]


def s_sets():
    """ray sets"""
    def make(k):
        def go():
            a, b = pyrayt.RaySet(2 + k), pyrayt.RaySet(3)
            a.wavelength, a.intensity, a.index, a.generation = 0.4 + k, 7 * k, 1.5, k
            b.rays = rays(k, 3)
            c = np.hstack((a, b)).view(pyrayt.RaySet)
            c.id = np.arange(c.n_rays)
            return [np.array(c), np.array(c.rays), c.n_rays, np.array(cg.bundle_of_rays(k))]
        return go
    return [make(1), make(4)]


SCENARIOS = {f.__name__[2:]: f for f in (
    s_ball, s_parts, s_sources, s_emit, s_static, s_lamps, s_surfaces, s_composite, s_render, s_shaded, s_mixed, s_materials, s_shading, s_create,
    s_move, s_factories, s_sets, s_equal, s_equal_surfaces, s_equal_composite, s_equal_views, s_equal_edges, s_equal_materials, s_equal_shading,
    s_create_one, s_move_one)}


def same(a, b):
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=1e-9, atol=1e-9, equal_nan=True))


def alone(name):
    """what each thread gets, each in a world of its own (what runs after the others needs them)"""
    out = []
    for k in range(2):
        out.append(SCENARIOS[name]()[k]())
    bodies = SCENARIOS[name]()
    last = [b() for b in bodies]
    return out + last[2:]


def explore(ctx, name, plan, want, warm, grain, after):
    np.random.seed(5)
    bodies = SCENARIOS[name]()
    if warm:
        for b in bodies[:2]:
            b()
    t = sched.schedule(bodies[:2], plan, grain)
    if t.blocked:
        ctx.count("waits for a lock")
        ctx.exhaustive = False
    used = [t.taken[k] for k in range(2)]
    if len(plan) and not t.blocked and plan[0][1] < used[plan[0][0]]:
        ctx.nontrivial += 1
        ctx.count(name)
    for k in range(2):
        if t.error[k] is not None:
            ctx.fail(f"{name}: a thread fails with {type(t.error[k]).__name__}: {t.error[k]}", thread=k)
            continue
        ctx.expect(same(t.result[k], want[k]), f"{name}: a thread does not get what it gets alone", thread=k, got=_short(t.result[k]),
                   want=_short(want[k]))
    for k, b in enumerate(bodies):
        if k < len(want) and (after or k > 1):
            ctx.expect(same(b(), want[k]), f"{name}: afterwards, the results are not what they are without threads", body=k)
    return t.blocked


def _short(x):
    if isinstance(x, (list, tuple)):
        return [_short(v) for v in x[:4]]
    return np.asarray(x, dtype=float).ravel()[:12].tolist()


def plans(count, grain, switches, stride):
    """(first thread, steps before each switch); one switch: A k, B to its end, A to its end"""
    a, b = count
    if switches == 1:
        for first in (0, 1):
            for k in range(0, count[first] + 1, stride):
                yield [(first, k), (1 - first, None)]
    else:
        for first in (0, 1):
            for i, j in itertools.product(range(1, count[first] + 1, stride), range(1, count[1 - first] + 1, stride)):
                yield [(first, i), (1 - first, j), (first, None)]


def _stride(count, most):
    """so that at most about that many pairs of switching points are left"""
    return max(1, int(np.ceil(np.sqrt(count[0] * count[1] / most))))


def run(ctx):
    for name in SCENARIOS:
        np.random.seed(5)
        want = alone(name)
        world = SCENARIOS[name]()
        for b in world:
            b()
        count = {g: [sched.steps_of(SCENARIOS[name]()[k], g) for k in range(2)] for g in sched.GRAINS}
        waits = 0
        if ctx.thorough:
            grain = "fine" if sum(count["fine"]) <= 3000 else "line"
            jobs = [(grain, 1, 1, False), (grain, 1, 1, True), ("call", 1, 1, True), ("call", 2, _stride(count["call"], 1500), False),
                    ("line", 2, _stride(count["line"], 1500), True)]
        else:
            grain = "fine" if sum(count["fine"]) <= 1300 else "line" if sum(count["line"]) <= 2100 else "call"
            jobs = [(grain, 1, 1, False), ("call", 1, 1, True), ("call", 2, _stride(count["call"], 40), False)]
        for grain, switches, stride, warm in jobs:
            for plan in plans(count[grain], grain, switches, stride):
                data = {"scenario": name, "grain": grain, "warm": warm, "plan": plan}
                if waits > 5:
                    continue
                if ctx.selected(data):
                    with ctx.case(data, steps=sum(count[grain])):
                        waits += bool(explore(ctx, name, plan, want, warm, grain, ctx.thorough or grain == "call"))
