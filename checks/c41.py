"""C41: asking changes nothing.  Every ask / change / ask again sequence over worlds of objects, against a world never asked before."""
import itertools
import numpy as np
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import pandas as pd
import pyrayt
import pyrayt.components as pc
import pyrayt.utils as pu
from pyrayt import materials as matl
from tinygfx.g3d import materials as paint
from tinygfx.g3d import primitives as prim
from tinygfx.g3d.operations import smallest_positive_root, binomial_root, element_wise_dot
import tinygfx.g3d as cg
from mc import core

LEVEL = "model_checking"
RULE = ("state = world of objects of one part of the library x question x (nothing | write over the answer | write over what was handed in | "
        "one change to the world) [x question x change] x question; the last answer is compared with that of a world that went through the "
        "same changes and was never asked, what was handed in and answers kept from before are compared with copies of them; "
        "non-trivial = a change or a write between the questions")
ASSUMPTIONS = ["random numbers start from the same seed before every question, so lamps answer alike"]
JUNK = 7.75


# -- what is compared ------------------------------------------------------------------------------------------------
def arrays(x):
    """the numbers of an answer, in order; views, not copies"""
    if isinstance(x, (list, tuple)):
        return [a for y in x for a in arrays(y)]
    if isinstance(x, pd.DataFrame):
        return [x[c].to_numpy() for c in x.columns]
    return [np.asarray(x)]


def keep(x):
    return [np.array(a, copy=True) for a in arrays(x)]


def same(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x.shape != y.shape or (x.dtype.kind in "OUS") != (y.dtype.kind in "OUS"):
            return False
        if x.dtype.kind in "OUS" or x.dtype.kind in "biu" and y.dtype.kind in "biu":
            if not np.array_equal(x, y):
                return False
        elif not np.allclose(x.astype(float), y.astype(float), rtol=1e-9, atol=1e-9, equal_nan=True):
            return False
    return True


def scribble(x):
    if isinstance(x, (list, tuple)):
        for y in x:
            scribble(y)
    elif isinstance(x, pd.DataFrame):
        for c in list(x.columns):
            x[c] = JUNK
    elif isinstance(x, np.ndarray) and x.flags.writeable and x.dtype.kind in "fiu":
        x[...] = JUNK


# -- what is handed in ------------------------------------------------------------------------------------------------
POOL = None


def pooled(key, values):
    """the same array again with other contents, where a sequence is asked with arrays that are used again"""
    if POOL is None:
        return values
    POOL.setdefault((key, values.shape), values)[...] = values
    return POOL[key, values.shape]


def some_rays(n, k=0):
    """n rays towards the middle, from all around; k chooses which"""
    i = np.arange(n) + 7 * k
    a, b = 2.399963 * i + k, np.cos(1.7 * i + 0.4 * k)
    eye = np.stack((np.cos(a) * np.sqrt(1 - 0.8 * b * b), np.sin(a), b)) * 6.0
    aim = np.stack((np.sin(3.1 * i), np.cos(2.3 * i + k), np.sin(1.3 * i + 1))) * 0.6
    d = aim - eye
    rays = np.zeros((2, 4, n))
    rays[0, :3], rays[0, 3], rays[1, :3] = eye, 1, d / np.linalg.norm(d, axis=0)
    return pooled("rays", rays)


def some_points(n, k=0):
    i = np.arange(n) + 5 * k
    return pooled("points", np.stack((np.cos(1.1 * i + k) * 0.8, np.sin(2.7 * i) * 0.7, np.cos(0.9 * i + 2) * 0.9, np.ones(n))))


def lights(k):
    return pooled("lights", [np.array([3.0, 4, 5, 1]), np.array([[1.0, -4], [2, 0.5], [6, 3], [1, 1]]), np.array([-2.0, 0, -3, 1])][k % 3])


TOUCHED = []


def ask(fn, *args):
    before = keep(args)
    answer = fn(*args)
    if not same(keep(args), before):
        TOUCHED.append(getattr(fn, "__qualname__", "call"))
    return list(args), answer


# -- worlds: make() -> dict of objects; questions: world -> (what was handed in, answer); changes: world -> None -------
def pose_changes(name):
    return {
        f"move {name}": lambda w: w[name].move(0.4, -0.3, 0.2),
        f"turn {name}": lambda w: w[name].rotate_x(35).rotate_z(-20),
        f"scale {name}": lambda w: w[name].scale(1.3, 0.8, 1.1),
        f"tf {name}": lambda w: w[name].transform(np.array([[0.0, 0, 1, 0.1], [0, 1, 0, 0], [-1, 0, 0, 0.3], [0, 0, 0, 1]])),
        f"rejected {name}": lambda w: rejected(lambda: w[name].scale(0, 1, 1)),
    }


def rejected(fn):
    try:
        fn()
    except ValueError:
        return
    raise AssertionError("a change that cannot be made was accepted")


def pose_questions(name):
    q = {}
    q[f"{name} pose"] = lambda w: ([], [w[name].get_world_transform(), w[name].get_object_transform(), w[name].get_position(), w[name].get_orientation()])
    q[f"{name} world point"] = lambda w: ask(w[name].to_world_coordinates, some_points(1)[:, 0])
    q[f"{name} points"] = lambda w: [*zip(ask(w[name].to_world_coordinates, some_points(4)), ask(w[name].to_object_coordinates, some_points(4, 1)))]
    return {k: (lambda w, f=f: tidy(f(w))) for k, f in q.items()}


def tidy(r):
    return list(r[0]), list(r[1]) if isinstance(r[1], tuple) else r[1]


def order(w, ids):
    """ids are counted through: name the objects instead"""
    known = {o.get_id(): k for k, o in enumerate(v for v in w.values() if isinstance(v, cg.WorldObject))}
    return np.array([known.get(int(i), -1) for i in np.ravel(ids)]).reshape(np.shape(ids))


def hits(w, obj, rays):
    args, (h, s) = ask(obj.intersect, rays)
    # where there is no hit the surface is not a part of the answer
    return args, [h, np.where(np.isfinite(h), order(w, s), -1)]


def solid_world(make):
    def world():
        a, b = make(0), make(1)
        a.rotate_y(25).move(0.1, 0.2, -0.1)
        b.scale(1.2, 1.2, 0.7).rotate_z(50).move(-0.3, 0, 0.2)
        return {"a": a, "b": b}
    questions = {}
    for n in "ab":
        questions.update(pose_questions(n))
        questions[f"{n} hits of 5"] = lambda w, n=n: hits(w, w[n], some_rays(5))
        questions[f"{n} hits of 5 others"] = lambda w, n=n: hits(w, w[n], some_rays(5, 1))
        questions[f"{n} hits of one"] = lambda w, n=n: hits(w, w[n], some_rays(1)[..., 0])
        questions[f"{n} normals"] = lambda w, n=n: ask(w[n].get_world_normals, some_points(4))
        questions[f"{n} normals elsewhere"] = lambda w, n=n: ask(w[n].get_world_normals, some_points(4, 2))
        questions[f"{n} normal"] = lambda w, n=n: ask(w[n].get_world_normals, some_points(1, 3)[:, 0])
        questions[f"{n} box"] = lambda w, n=n: ([], [w[n].bounding_box.axis_spans.copy(), w[n].bounding_volume.bounding_points.copy()])
        questions[f"{n} ids"] = lambda w, n=n: ([], order(w, [i for i, s in w[n].surface_ids]))
        for k in (0, 1):
            questions[f"{n} shade {k}"] = lambda w, n=n, k=k: shade(w[n], some_rays(3, k), np.array([1.0, 2, 3]) + k, lights(k))
        questions[f"{n} primitive"] = lambda w, n=n: tidy([*zip(ask(w[n].primitive.intersect, some_rays(4, 2)), ask(w[n].primitive.normal, some_points(4, 4)))])
    changes = dict(pose_changes("a"))
    changes["move b"] = lambda w: w["b"].move(0.1, 0.5, 0)
    changes["invert a"] = lambda w: w["a"].invert_normals()
    changes["invert and reset a"] = lambda w: (w["a"].invert_normals(), w["a"].reset_normals())
    changes["paint a"] = lambda w: setattr(w["a"], "material", paint.gooch.RED)
    changes["one more"] = lambda w: w.update(z=make(2).move(0.2, 0, 0))
    return world, questions, changes


def shade(obj, rays, distances, light):
    return ask(lambda r, d, l: obj.shade(r, d, light_positions=l), rays, distances, light)


def composite_world():
    def world():
        ball, rod, cup, cut = cg.Sphere(1), cg.Cylinder(0.5, -1.2, 1.2).rotate_x(20), cg.Paraboloid(0.4, 0.8).move(0.2, 0, 0), cg.Cuboid.from_sides(0.6, 0.9, 2.5)
        inner = cg.csg.union(ball, rod)
        body = cg.csg.difference(inner, cut)
        whole = cg.csg.union(body, cup)
        return {"ball": ball, "rod": rod, "cup": cup, "cut": cut, "inner": inner, "body": body, "whole": whole,
                "lens": pc.thick_lens(3, -4, 0.5, aperture=1.5)}
    questions = {}
    for n in ("whole", "body", "lens"):
        questions.update(pose_questions(n))
        questions[f"{n} hits"] = lambda w, n=n: hits(w, w[n], some_rays(6))
        questions[f"{n} hits of others"] = lambda w, n=n: hits(w, w[n], some_rays(6, 3))
        questions[f"{n} hits of one"] = lambda w, n=n: hits(w, w[n], some_rays(1, 2)[..., 0])
        questions[f"{n} box"] = lambda w, n=n: ([], [w[n].bounding_box.axis_spans.copy(), w[n].bounding_volume.bounding_points.copy()])
        questions[f"{n} ids"] = lambda w, n=n: ([], order(w, [i for i, s in w[n].surface_ids]))
    for n in ("ball", "cut", "rod"):
        questions[f"{n} normals"] = lambda w, n=n: ask(w[n].get_world_normals, some_points(3))
        questions[f"{n} hits"] = lambda w, n=n: hits(w, w[n], some_rays(4))
    changes = {**pose_changes("whole"), "move ball": lambda w: w["ball"].move(0.1, 0.1, 0.3), "turn cut": lambda w: w["cut"].rotate_y(30),
               "scale inner": lambda w: w["inner"].scale(0.8, 1.2, 1), "invert whole": lambda w: w["whole"].invert_normals(),
               "reset body": lambda w: w["body"].reset_normals(), "move lens": lambda w: w["lens"].move(0.3, 0.1, 0),
               "another": lambda w: w.update(more=cg.csg.intersect(w["whole"], cg.Sphere(0.9)))}
    return world, questions, changes


def group_world():
    def world():
        a, b, c = cg.Sphere(0.7), cg.Cuboid.from_length(0.8).move(1, 0, 0), pc.LineOfRays(0.5).move(0, 1, 0)
        inner = cg.ObjectGroup([b, c])
        return {"a": a, "b": b, "c": c, "inner": inner, "g": cg.ObjectGroup([a, inner])}
    questions = {**pose_questions("g"), **pose_questions("b")}
    for n in "ab":
        questions[f"{n} hits"] = lambda w, n=n: hits(w, w[n], some_rays(5))
    questions["c rays"] = lambda w: ([], w["c"].generate_rays(3))
    questions["walk"] = lambda w: ([], [order(w, [o.get_id() for o in w["g"]]), len(w["inner"]), order(w, [o.get_id() for o in w["inner"]])])
    changes = {**pose_changes("g"), "move inner": lambda w: w["inner"].move(0.2, 0, 0.1), "turn b": lambda w: w["b"].rotate_z(15),
               "append": lambda w: w["inner"].append(w.setdefault(f"d{len(w)}", cg.Sphere(2))), "take out": lambda w: w["inner"].data.clear(),
               "pin": lambda w: pinned(w)}
    return world, questions, changes


def pinned(w):
    with pyrayt.pin(w["a"], w["b"]):
        w["g"].move(3, 2, 1)
        w["a"].rotate_x(40)


def source_world(make):
    def world():
        return {"a": make(0).rotate_z(20).move(0.5, 0, 1), "b": make(1).rotate_y(-70)}
    questions = {}
    for n in "ab":
        questions.update({k: q for k, q in pose_questions(n).items() if "pose" in k})
        for m in (1, 4, 5):
            questions[f"{n} emits {m}"] = lambda w, n=n, m=m: ([], w[n].generate_rays(m))
        questions[f"{n} color"] = lambda w, n=n: ([], w[n].wavelength)
    changes = {**pose_changes("a"), "color a": lambda w: setattr(w["a"], "wavelength", 0.5), "turn b": lambda w: w["b"].rotate_x(10),
               "color b": lambda w: setattr(w["b"], "wavelength", 0.7), "one more": lambda w: w.update(z=make(2))}
    return world, questions, changes


def lamp_world():
    """a lamp that is not static; the static one draws its rays once, which is a change of the lamp (C25)"""
    return source_world(lambda k: pc.Lamp(1 + k, 0.5, 20 + 10 * k, 0.4 + 0.1 * k))


def camera_world():
    def world():
        ball, box = cg.Sphere(0.8, material=paint.gooch.RED), cg.Cuboid.from_length(0.9, material=paint.gooch.WHITE).move(0, 0.9, 0.2)
        cam, cam2 = cg.OrthographicCamera(9, 3, 0.8).move(-5, 0, 0), cg.OrthographicCamera(9, 2, 1.0).rotate_z(180).move(5, 0, 0)
        return {"ball": ball, "box": box, "cam": cam, "cam2": cam2,
                "shader": cg.renderers.ShadedRenderer(cam, [ball, box], light_position=prim.Point(-3, 2, 4)),
                "edger": cg.renderers.EdgeRender(cam, [ball, box]), "edger2": cg.renderers.EdgeRender(cam2, [box, ball]),
                "shader2": cg.renderers.ShadedRenderer(cam2, [box], light_position=lights(1))}
    questions = {"rays": lambda w: ([], w["cam"].generate_rays()), "rays 2": lambda w: ([], w["cam2"].generate_rays()),
                 "frame": lambda w: ([], [w["cam"].get_resolution(), w["cam"].get_span(), w["cam2"].get_resolution(), w["cam2"].get_span()])}
    for n in ("shader", "edger", "shader2", "edger2"):
        questions[n] = lambda w, n=n: ([], w[n].render())
        if n.startswith("edger"):
            questions[f"{n} results"] = lambda w, n=n: ([], (w[n].render(), w[n].get_results())[1])
    for n, p in (("xy", paint.gooch.RED), ("xz", paint.gooch.BLUE)):
        questions[f"draw {n}"] = lambda w, n=n: drawing(w, n)
    changes = {**pose_changes("cam"), "move ball": lambda w: w["ball"].move(0, 0.3, 0.3), "scale box": lambda w: w["box"].scale(1, 0.5, 1.5),
               "paint": lambda w: setattr(w["ball"], "material", paint.gooch.GREEN), "turn cam2": lambda w: w["cam2"].rotate_x(90),
               "invert": lambda w: w["box"].invert_normals()}
    return world, questions, changes


def drawing(w, view):
    fig, ax = plt.subplots()
    try:
        items = [w["ball"], w["box"]]
        args, _ = ask(lambda a, b: cg.renderers.draw(items, view=view, axis=ax, shaded=True, bounds=(a, b), resolution=12), np.array([-1.0, -1, -1]), np.array([1.0, 1.5, 1]))
        cg.renderers.draw(items, view=view, axis=ax, shaded=False, resolution=10)
        if [i is w[n] for i, n in zip(items, ("ball", "box"))] != [True, True] or len(items) != 2:
            TOUCHED.append("draw")
        return args, [v for im in ax.images for v in (np.array(im.get_array()), np.array(im.get_extent()))]
    finally:
        plt.close(fig)


def tracer_world():
    def world():
        glass = matl.SellmeierRefractor(1.0, 0.2, 1.0, 6e-3, 2e-2, 103)
        lens, wall = pc.biconvex_lens(3, 3, 0.5, aperture=1.6, material=glass), pc.baffle((3, 3)).move_x(5)
        mirror = pc.plane_mirror(0.2, aperture=2).rotate_z(30).move_x(3)
        a, b = pc.LineOfRays(0.9, wavelength=0.5).move_x(-4), pc.ConeOfRays(10).move(-3, 0.1, 0.1)
        return {"lens": lens, "wall": wall, "mirror": mirror, "a": a, "b": b, "one": pyrayt.RayTracer([a, b], [lens, mirror], 4, 8),
                "two": pyrayt.RayTracer(b, [lens, wall], 3, 5), "glass": glass}

    def parts(w):
        return {i: k for k, n in enumerate(("lens", "wall", "mirror")) for k, (i, s) in [(10 * k + j, x) for j, x in enumerate(w[n].surface_ids)]}

    def frame(w, df):
        df["surface"] = df["surface"].map(parts(w)).astype(float)
        return df

    def named(w, t):
        df = w[t].trace()
        w[t].calculate_source_ids()
        return [], frame(w, df)

    def plotted(w, t, **kw):
        w[t].trace()
        fig, ax = plt.subplots()
        try:
            w[t].show(axis=ax, resolution=20, **kw)
            q = [c for c in ax.collections]
            return [], [v for c in q for v in (np.array(c.XY), np.array(c.U), np.array(c.V), np.array(c.get_facecolor()))] + [np.array(im.get_array()) for im in ax.images]
        finally:
            plt.close(fig)
    questions = {}
    for t in ("one", "two"):
        questions[f"trace {t}"] = lambda w, t=t: ([], frame(w, w[t].trace()))
        questions[f"trace {t} with sources"] = lambda w, t=t: named(w, t)
        questions[f"results {t}"] = lambda w, t=t: ([], frame(w, (w[t].trace(), w[t].get_results())[1]))
        questions[f"settings {t}"] = lambda w, t=t: ([], [w[t].get_rays_per_source(), w[t].get_generation_limit(), order(w, [c.get_id() for c in w[t].get_system()])])
    questions["show one"] = lambda w: plotted(w, "one", view="xy", color_function="wavelength")
    questions["show two"] = lambda w: plotted(w, "two", view="xz", color_function="source")
    questions["lens ids"] = lambda w: ([], [parts(w)[i] for i, s in w["lens"].surface_ids])
    changes = {"rays": lambda w: w["one"].set_rays_per_source(5), "limit": lambda w: w["one"].set_generation_limit(2), "reset": lambda w: w["one"].reset(),
               "load": lambda w: w["one"].load_components([w["mirror"], w["wall"]]), "load two": lambda w: w["two"].load_components(w["mirror"]),
               "move lens": lambda w: w["lens"].move(0.2, 0.1, 0).rotate_z(5), "move a": lambda w: w["a"].move_y(0.2), "color b": lambda w: setattr(w["b"], "wavelength", 0.7),
               "other glass": lambda w: setattr(w["glass"], "b1", 1.3), "material": lambda w: [setattr(s, "material", matl.mirror) for i, s in w["wall"].surface_ids],
               "rejected": lambda w: rejected(lambda: w["mirror"].scale(1, -1, 1))}
    return world, questions, changes


def glass_world():
    def world():
        return {"s": matl.SellmeierRefractor(1.0, 0.2, 1.0, 6e-3, 2e-2, 103), "t": matl.SellmeierRefractor(b1=1.4, c1=0.01), "u": matl.BasicRefractor(1.7),
                "k": matl.glass["BK7"], "ball": cg.Sphere(1)}

    def through(w, n):
        rays = pyrayt.RaySet(4)
        rays.rays = some_rays(4, 5)
        at = rays.rays[0] / np.linalg.norm(rays.rays[0, :3], axis=0)
        at[3] = 1
        rays.rays = np.stack((at, rays.rays[1]))
        rays.wavelength = np.array([0.4, 0.5, 0.6, 0.7])
        rays.intensity = np.arange(4.0)
        return [], w[n].trace(w["ball"], rays)
    questions = {}
    for n in "stuk":
        for k, wave in enumerate((0.5, np.array([0.45, 0.55, 0.65]), np.array([0.7, 0.6, 0.5]), np.array([[0.5, 0.6], [0.4, 0.7]]))):
            questions[f"{n} index {k}"] = lambda w, n=n, wave=wave: ask(w[n].index_at, pooled("waves", np.array(wave)) if np.ndim(wave) else wave)
        questions[f"{n} abbe"] = lambda w, n=n: ([], rejected_abbe(w[n]))
        questions[f"{n} trace"] = lambda w, n=n: through(w, n)
        questions[f"{n} shade"] = lambda w, n=n: ask(w[n].shade, some_rays(3), some_points(3), lights(1))
    changes = {"b1": lambda w: setattr(w["s"], "b1", 1.2), "c2": lambda w: setattr(w["s"], "c2", 3e-2), "t b2": lambda w: setattr(w["t"], "b2", 0.3),
               "move ball": lambda w: w["ball"].rotate_x(50), "new": lambda w: w.update(z=matl.SellmeierRefractor(0.7)), "new basic": lambda w: w.update(z=matl.BasicRefractor(2.5))}
    return world, questions, changes


def rejected_abbe(g):
    with np.errstate(all="ignore"):
        try:
            return g.abbe()
        except ZeroDivisionError:
            return -1.0


def paint_world():
    def world():
        return {"p": paint.gooch.GoochMaterial(paint.color.RGBAColor(0.1, 0.9, 0.3), paint.color.RGBAColor(0.8, 0.2, 0), paint.color.RGBAColor(0, 0.1, 0.6), 0.4, 0.2),
                "q": paint.gooch.GoochMaterial(paint.color.RGBAColor(0.5, 0.5, 0.5), alpha=0.9)}
    named = {"red": paint.gooch.RED, "blue": paint.gooch.BLUE}
    questions = {}
    for n in ("p", "q", "red", "blue"):
        for k in (0, 1, 2):
            questions[f"{n} shade {k}"] = lambda w, n=n, k=k: ask(lambda r, m, l: (w.get(n) or named[n]).shade(r, m, l), some_rays(3 + k % 2, k), some_points(3 + k % 2, k), lights(k))
        questions[f"{n} shade one"] = lambda w, n=n: ask(lambda r, m, l: (w.get(n) or named[n]).shade(r, m, l), some_rays(1)[..., 0], some_points(1)[:, 0], lights(0))
    questions["constants"] = lambda w: ([], [np.array(getattr(paint.color, c)) for c in ("WHITE", "BLACK", "RED", "GREEN", "BLUE", "YELLOW", "ORANGE")])
    changes = {"alpha": lambda w: setattr(w["p"], "alpha", 0.8), "base": lambda w: setattr(w["p"], "base_color", paint.color.RGBAColor(0.3, 0, 1)),
               "dye": lambda w: setattr(w["q"].warm_color, "r", 0.7), "cool": lambda w: w["p"].cool_color.__setitem__(1, 0.9)}
    return world, questions, changes


def mirror_world():
    """mirrors and absorbers between surfaces"""
    def world():
        return {"ball": cg.Sphere(1, material=matl.mirror), "wall": cg.XYPlane(5, 5, material=matl.absorber).move_z(0.3)}

    def act(w, m, n, k):
        rays = pyrayt.RaySet(3)
        rays.rays = some_rays(3, k)
        rays.index = 1.5
        return [], m.trace(w[n], rays)
    questions = {f"{n} {m} {k}": (lambda w, n=n, m=m, k=k: act(w, getattr(matl, m), n, k)) for n in ("ball", "wall") for m in ("mirror", "absorber") for k in (0, 1)}
    questions["shade"] = lambda w: ask(matl.mirror.shade, some_rays(3), some_points(3), lights(0))
    questions["shade absorber"] = lambda w: ask(matl.absorber.shade, some_rays(3), some_points(3), lights(2))
    return world, questions, {**pose_changes("ball"), "turn wall": lambda w: w["wall"].rotate_y(40), "invert": lambda w: w["ball"].invert_normals()}


def function_world():
    """functions, which have no state at all"""
    q = {}
    u = lambda n, k=0: some_points(n, k) * [[1], [1], [1], [0]] / np.linalg.norm(some_points(n, k)[:3], axis=0)
    for k, n in enumerate((3, 3, 5)):
        q[f"reflect {k}"] = lambda w, k=k, n=n: ask(cg.reflect, u(n, k) * (0.5 + k), u(n, k + 3))
        q[f"refract {k}"] = lambda w, k=k, n=n: ask(cg.refract, u(n, k) * (1.5 + k), u(n, k + 3), np.full(n, 1.0 + k / 4), np.full(n, 1.5))
        q[f"refract scalars {k}"] = lambda w, k=k, n=n: ask(cg.refract, u(n, k), u(n, k + 1), 1.7, 1.2 + k / 10)
        q[f"root {k}"] = lambda w, k=k, n=n: ask(smallest_positive_root, np.cos(np.arange(n) + k), np.sin(np.arange(n) * 2.0), -np.ones(n) + k)
        q[f"roots {k}"] = lambda w, k=k, n=n: ask(binomial_root, np.cos(np.arange(n) + k), np.sin(np.arange(n) * 2.0), -np.ones(n) + k)
        q[f"dot {k}"] = lambda w, k=k, n=n: ask(element_wise_dot, u(n, k), u(n, k + 2))
        q[f"colors {k}"] = lambda w, k=k, n=n: ask(pu.wavelength_to_rgb, np.linspace(0.35, 0.8, n) + 0.01 * k)
        q[f"colors gamma {k}"] = lambda w, k=k, n=n: ask(lambda x: pu.wavelength_to_rgb(x, gamma=0.5 + k), np.linspace(0.35, 0.8, n))
        q[f"color {k}"] = lambda w, k=k: ([], pu.wavelength_to_rgb(0.42 + 0.1 * k))
        q[f"lensmaker {k}"] = lambda w, k=k: ([], pu.lensmakers_equation(3.0, -4.0 - k, 1.5, 0.2))
        for op in cg.csg.Operation:
            q[f"csg {op.name} {k}"] = lambda w, k=k, n=n, op=op: ask(lambda a, b: cg.csg.array_csg(a, b, op), np.sort(np.sin(np.arange(4 * n) * 1.7 + k).reshape(4, n), axis=0),
                                                                     np.sort(np.cos(np.arange(2 * n) * 2.9).reshape(2, n), axis=0))
            q[f"csg unsorted {op.name} {k}"] = lambda w, k=k, n=n, op=op: ask(lambda a, b: cg.csg.array_csg(a, b, op, sort_output=False), np.sort(np.sin(np.arange(2.0) + k)), np.sort(np.cos(np.arange(4.0) * 2)))
        q[f"bundle {k}"] = lambda w, n=n: ([], cg.bundle_of_rays(n))
        q[f"gather {k}"] = lambda w, k=k, n=n: gather(n, k)
        q[f"ray set {k}"] = lambda w, n=n: ([], pyrayt.RaySet(n))
        q[f"join {k}"] = lambda w, k=k, n=n: ask(lambda a, b: np.hstack((a, b)), filled(n, k), filled(2, k + 1))
        q[f"some of a set {k}"] = lambda w, k=k, n=n: ask(lambda a: np.array(a[..., np.arange(n) % 2 == 0].rays), filled(n, k))
    q["point"] = lambda w: ([], [cg.Point(), cg.Point(1, 2, 3), cg.Vector(), cg.Vector(1, 2), cg.Ray(), paint.color.RGBAColor(), paint.color.RGBAColor(0.1)])
    q["ray"] = lambda w: ask(cg.Ray, cg.Point(1, 2, 3), cg.Vector(0, 1, 0))
    q["unit"] = lambda w: unit()
    changes = {}
    return lambda: {}, q, changes


def unit():
    v = cg.Vector(3, 0, 4)
    v.normalize()
    return [], v


def gather(n, k):
    rays = [cg.Ray(cg.Point(i, k, 1), cg.Vector(0, 1, i)) for i in range(n)]
    args, answer = ask(prim.bundle_rays, rays)
    return rays, answer


def filled(n, k):
    r = pyrayt.RaySet(n)
    r.rays = some_rays(n, k)
    r.wavelength, r.intensity, r.index = 0.4 + 0.1 * k, np.arange(n) + 1.0, 1.5
    return r


def factory_world():
    """objects made by the same factory have nothing to do with each other: each question makes one and moves it away afterwards"""
    makers = {
        "lens": lambda ap: pc.thick_lens(3, -4, 0.5, aperture=ap), "lens 2": lambda ap: pc.thick_lens(3, -4, 0.6, aperture=ap, material=matl.glass["BK7"]),
        "biconvex": lambda ap: pc.biconvex_lens(3, 3, 0.8, aperture=ap), "plano": lambda ap: pc.plano_convex_lens(2.5, 0.8, aperture=ap),
        "plane mirror": lambda ap: pc.plane_mirror(0.2, aperture=ap), "spherical": lambda ap: pc.spherical_mirror(4, 0.3, aperture=ap),
        "parabolic": lambda ap: pc.parabolic_mirror(2, 0.3, aperture=ap), "baffle": lambda ap: pc.baffle(ap), "stop": lambda ap: pc.aperture((3, 3), ap),
        "prism": lambda ap: pc.equilateral_prism(1.2, 0.9), "off-axis": lambda ap: pc.parabolic_mirror(2, 0.3, aperture=ap, off_axis=np.array([0.4, 0.1])),
        "box": lambda ap: cg.Cuboid(np.array([-1.0, -0.5, -0.7]), np.array([0.6, 0.5, 0.9])), "sides": lambda ap: cg.Cuboid.from_sides(0.7, 1, 2), "ball": lambda ap: cg.Sphere(0.9),
    }
    apertures = {"tuple": lambda: (1.2, 0.9), "list": lambda: [-1.2, -1.0], "array": lambda: np.array([1.1, 0.8]), "number": lambda: 1.3}

    def made(m, a):
        ap = apertures[a]()
        _, obj = ask(makers[m], ap)
        ids = [i for i, s in obj.surface_ids]
        h, s = obj.intersect(some_rays(8, 2) * [[[1], [1], [1], [1]], [[1], [1], [1], [0]]])
        answer = [h, np.array([[ids.index(x) if np.isfinite(y) else -1 for x, y in zip(r, t)] for r, t in zip(s, h)]), obj.get_world_transform(), obj.bounding_box.axis_spans.copy(),
                  len(set(ids)), np.array([[s.index_at(0.5) if hasattr(s, "index_at") else -1.0] for s in [x.material for i, x in obj.surface_ids]])]
        obj.rotate_x(50).move(20, 3, 1)
        obj.invert_normals()
        for i, x in obj.surface_ids:
            x.material = paint.gooch.RED
        return [ap] if a == "array" else [], answer
    q = {f"{m} of {a}": (lambda w, m=m, a=a: made(m, a)) for m in makers for a in (apertures if m in ("lens", "parabolic", "baffle", "stop") else ["number", "array"])}
    return lambda: {}, q, {}


def worlds(thorough):
    solids = {
        "ball": lambda k: cg.Sphere((0.9, 1.2, 2)[k]), "rod": lambda k: cg.Cylinder((0.6, 0.9, 2)[k], -0.8, 0.7 + k), "cup": lambda k: cg.Paraboloid((0.3, 0.5, 2)[k], 0.9),
        "box": lambda k: cg.Cuboid((-0.7, -0.6, -0.8), (0.5 + k / 3, 0.7, 0.6)), "sheet": lambda k: cg.XYPlane(2 + k, 1.5),
    }
    sources = {
        "line": lambda k: pc.LineOfRays(1 + k, 0.4 + 0.1 * k), "circle": lambda k: pc.CircleOfRays(1 + k, 0.4 + 0.1 * k), "cone": lambda k: pc.ConeOfRays(10 + 20 * k, 0.4 + 0.1 * k),
        "wedge": lambda k: pc.WedgeOfRays(15 + 20 * k, 0.4 + 0.1 * k),
    }
    out = {n: solid_world(m) for n, m in solids.items()}
    out.update({n: source_world(m) for n, m in sources.items()})
    out.update({"lamp": lamp_world(), "composite": composite_world(), "group": group_world(), "camera": camera_world(), "tracer": tracer_world(), "glass": glass_world(),
                "paint": paint_world(), "mirror": mirror_world(), "functions": function_world(), "factories": factory_world()})
    return out


def put(question, w):
    np.random.seed(20)
    with np.errstate(all="ignore"):
        return question(w)


def check(ctx, world, questions, changes, asked, made, last, reference, again=False):
    """asked: questions; made: what happens after each of them"""
    w = world()
    kept = []
    TOUCHED.clear()
    global POOL
    POOL = {} if again else None
    for name, change in zip(asked, made):
        args, answer = put(questions[name], w)
        if change == "write over the answer":
            scribble(answer)
        elif change == "write over what was handed in":
            scribble(args)
            kept.append((name, answer, keep(answer)))
        else:
            kept.append((name, answer, keep(answer)))
            if change is not None:
                changes[change](w)
    args, answer = put(questions[last], w)
    got = keep(answer)
    ctx.evaluations += 1
    ctx.nontrivial += any(made)
    if not ctx.expect(not TOUCHED, f"what was handed in was changed by {TOUCHED[:1]}"):
        return
    if not ctx.expect(same(got, reference), f"{last}: the answer depends on what was asked before", got=[g.tolist() for g in got][:3], want=[r.tolist() for r in reference][:3]):
        return
    for name, answer, copy in kept:
        if not ctx.expect(same(keep(answer), copy), f"{name}: an answer that was kept changed later on"):
            return


def run(ctx):
    t = ctx.thorough
    for name, (world, questions, changes) in worlds(t).items():
        steps = [None, "write over the answer", "write over what was handed in"] + list(changes)
        reference = {}

        def expected(made, last):
            real = tuple(c for c in made if c in changes)
            if (real, last) not in reference:
                w = world()
                for c in real:
                    changes[c](w)
                args, answer = put(questions[last], w)
                reference[real, last] = keep(answer)
            return reference[real, last]

        for (i, q1), (j, step), (k, q2) in itertools.product(*map(enumerate, (questions, steps, questions))):
            # the second of two alike objects is asked first as often as needed to see that it does not matter to the first one
            if not t and q1.startswith("b ") and q2.startswith("b ") and "a pose" in questions:
                continue
            # with new arrays every time, or with the same ones whose contents change
            for again in ((False, True) if t or q1 == q2 else ((i + j + k) % 2 == 0,)):
                data = {"world": name, "ask": [q1], "then": [step], "last": q2, "same arrays": again}
                if ctx.selected(data):
                    with ctx.case(data, steps=3):
                        check(ctx, world, questions, changes, (q1,), (step,), q2, expected((step,), q2), again)
        # two changes, each with a question before it
        some = list(questions)[::3] if not t else list(questions)[::2]
        for (q1, q2), (s1, s2) in itertools.product(itertools.product(some, repeat=2), itertools.product(steps, repeat=2)):
            data = {"world": name, "ask": [q1, q2], "then": [s1, s2], "last": q1}
            if (t or len(some) * len(steps) < 50 or (some.index(q1) + some.index(q2)) % 12 == (steps.index(s1) + 5 * steps.index(s2)) % 12) and ctx.selected(data):
                with ctx.case(data, steps=5):
                    check(ctx, world, questions, changes, (q1, q2), (s1, s2), q1, expected((s1, s2), q1), (steps.index(s1) + steps.index(s2)) % 2 == 0)
