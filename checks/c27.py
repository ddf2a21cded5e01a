"""C27: Gooch shading.  Colors x blending factors x lights x points x normals x batch shapes x histories of a material."""
import itertools
import numpy as np
import tinygfx.g3d as cg
from tinygfx.g3d.materials import color, gooch
from pyrayt import materials as matl
from mc import core, oracle, paint
from mc.scene import leaf, build

LEVEL = "model_checking"
RULE = ("state = material (colors and blending factors from alphabets, library materials, traceable materials and their paints) x "
        "light arrangement (none to five lights, as vector, tuple of columns or list of columns) x batch of points and normals, "
        "shaded at once, one by one, reversed and in parts; and sequences of edits of a material; non-trivial = a shade compared")
ASSUMPTIONS = ["several lights are the columns of a 4xm (or 3xm) array", "no light is at a shaded point"]

C = [color.RGBAColor(), color.RGBAColor(1, 1, 1), color.RGBAColor(0.2, 0.55, 0.9), color.RGBAColor(1, 0.5, 0, 0.25),
     color.RGBAColor(0.8, 0, 0.1, 0)]
FACTORS = [(0.3, 0.3), (0, 0), (1, 1), (0.2, 0.9), (0.75, 0)]
NORMALS = [(1, 0, 0), (0, -1, 0), (0, 0, 1), (0.6, 0, 0.8), (-0.6, 0.64, 0.48), (-0.36, -0.48, -0.8)]
POINTS = [(0, 0, 0), (1.5, -2, 0.25), (-40, 3, 7), (1e-3, 1e3, -2e3)]
ONE = [(3.0, -4.0, 9.0), (0, 0, 5), (-1e6, 2e6, 5e5), (0.1, 0.2, 0.3)]
MANY = [[(3, -4, 9)], [(3, -4, 9), (-5, 0.5, 1)], [(1, 1, 1), (2, -3, 4), (-7, 2, 0.1)], [(1, 2, 3), (3, 1, 2), (2, 3, 1), (9, 9, -9)],
        [(5, 5, 5)] * 3 + [(-5, 5, 5)], [(0.3, 1, 2), (4, 5, -6), (7, -8, 9), (-10, 11, 12), (0, 0, 13)]]


def batch():
    pn = np.array(list(itertools.product(POINTS, NORMALS)))
    p, n = pn[:, 0].T, pn[:, 1].T
    m = p.shape[1]
    pts = np.vstack((p, np.ones(m)))
    nrm = np.vstack((n, np.zeros(m)))
    dirs = np.tile(np.array([[0.0], [0.6], [0.8], [0]]), (1, m))
    return np.stack((pts, dirs)), nrm


RAYS, NRM = batch()


def light_forms(lights):
    """the same lights in every form they can be passed"""
    if len(lights) == 1:
        l = lights[0]
        yield "point", cg.Point(*l)
        yield "3-vector", np.array(l, dtype=float)
        yield "4-vector", np.array([*l, 1.0])
    a = np.array(lights, dtype=float).T
    yield "columns", np.vstack((a, np.ones(a.shape[1])))
    yield "3xm", a


def check(ctx, mat, params, lights, what, forms=None):
    want = paint.shade(params, RAYS[0].astype(oracle.LD), NRM.astype(oracle.LD), lights).astype(float)
    n = RAYS.shape[2]
    for form, l in light_forms(lights):
        if forms and form not in forms:
            continue
        rays, nrm, li = RAYS.copy(), NRM.copy(), l.copy()
        got = mat.shade(rays, nrm, li)
        if not ctx.expect(np.shape(got) == (4, n), f"{what}: shades of the wrong shape", got=np.shape(got)):
            return
        ok = np.abs(np.asarray(got) - want).max(axis=0) < 1e-9
        ctx.evaluations += n
        ctx.nontrivial += n
        ctx.count(form, n)
        if not ok.all():
            i = int(np.nonzero(~ok)[0][0])
            ctx.fail(f"{what}: wrong shade", lights=lights, form=form, point=RAYS[0, :3, i], normal=NRM[:3, i],
                     got=np.asarray(got)[:, i], want=want[:, i], n_bad=int((~ok).sum()))
            return
        ctx.expect(np.array_equal(rays, RAYS) and np.array_equal(nrm, NRM) and np.array_equal(li, l),
                   f"{what}: shading changed its arguments")
    # each point on its own, in parts and in another order
    l = next(light_forms(lights))[1]
    parts = [[i] for i in range(0, n, 5)] + [list(range(n))[::-1], [3, 1], [7, 7, 2], [4, 9, 17], [0, 6, 12, 18], [0, 23], [20, 1], [2, 8], [13, 7]]
    for idx in parts:
        got = np.asarray(mat.shade(RAYS[..., idx], NRM[:, idx], l))
        ctx.expect(got.shape == (4, len(idx)) and bool(np.all(np.abs(got - want[:, idx]) < 1e-9)),
                   f"{what}: a shade depends on the rest of the batch", n=len(idx), batch=idx, got=got[:, :3], want=want[:, idx][:, :3])
    for i in (0, 7, 23):
        got = np.asarray(mat.shade(RAYS[..., i], NRM[:, i], l))
        ctx.expect(got.size == 4 and bool(np.all(np.abs(got.reshape(-1) - want[:, i]) < 1e-9)), f"{what}: wrong shade of a single point",
                   got=got, want=want[:, i])
        got = np.asarray(mat.shade(RAYS[..., i:i + 1], NRM[:3, i:i + 1], l))
        ctx.expect(got.size == 4 and bool(np.all(np.abs(got.reshape(-1) - want[:, i]) < 1e-9)), f"{what}: wrong shade with plain normals",
                   got=got, want=want[:, i])


EDITS = ["base", "warm", "cool", "alpha", "beta", "shade", "other"]


def edits(ctx, seq):
    g = gooch.GoochMaterial(base_color=color.RGBAColor(0.1, 0.2, 0.3), warm_color=color.RGBAColor(1, 0, 0))
    other = gooch.GoochMaterial()
    coat = paint.Coat(g)
    cur = [np.array([0.1, 0.2, 0.3, 1]), np.array([1.0, 0, 0, 1]), np.array([0, 0, 0, 1.0]), 0.3, 0.3]
    for k, op in enumerate(seq):
        if op in ("base", "warm", "cool"):
            v = (0.1 + 0.2 * k, 0.9 - 0.2 * k, 0.15 * k)
            setattr(g, op + "_color", color.RGBAColor(*v))
            cur[("base", "warm", "cool").index(op)] = np.array([*v, 1.0])
        elif op in ("alpha", "beta"):
            setattr(g, op, 0.15 * (k + 1))
            cur[3 + (op == "beta")] = 0.15 * (k + 1)
        elif op == "shade":
            g.shade(RAYS, NRM, cg.Point(1, 2, 3))
        else:
            other.base_color = color.RGBAColor(0.5, 0.6, 0.7)
            other.cool_color.r = 0.9
            other.shade(RAYS, NRM, cg.Point(1, 2, 3))
    params = [np.asarray(v, dtype=oracle.LD) for v in cur]
    check(ctx, g, params, [(3, -4, 9)], "edited material", ("point",))
    check(ctx, coat, params, [(3, -4, 9), (1, 1, 1)], "traceable material with an edited paint")
    fresh = gooch.GoochMaterial()
    check(ctx, fresh, [np.array([0, 0, 0, 1], dtype=oracle.LD)] * 3 + [oracle.LD(0.3)] * 2, [(3, -4, 9)], "default material", ("point",))


def on_surface(ctx, spec, mat, params, lights, away=None):
    """a surface shades where the rays hit it, with its normal there"""
    node = build(dict(spec, ops=spec["ops"] + [["move", *away]]) if away else spec)
    if away:
        lights = [tuple(np.add(l, away)) for l in lights]
    node.real.material = mat
    o = np.array([(-5.0, 0.1, 0.2), (4, 3, 5), (0.3, -6, 0.1), (0.2, 0.1, 7)])
    d = np.array([0.02, -0.01, 0.03]) - o
    d /= np.linalg.norm(d, axis=1, keepdims=True)
    rays = np.zeros((2, 4, len(o)))
    rays[0, :3], rays[1, :3], rays[0, 3] = o.T, d.T, 1
    if away:
        rays[0, :3] += np.array(away)[:, None]
    hits, _ = node.real.intersect(rays)
    for row in hits[:2]:
        if not np.all(np.isfinite(row)):
            continue
        pts = rays[0].astype(oracle.LD) + row * rays[1]
        nrm, ok = node.tree.normal(pts, tol=3e-5)
        want = paint.shade(params, pts, np.asarray(nrm), lights).astype(float)
        l = next(light_forms(lights))[1]
        got = np.asarray(node.real.shade(rays.copy(), row, light_positions=l))
        ctx.nontrivial += int(ok.sum())
        ctx.expect(got.shape == want.shape and bool(np.all((np.abs(got - want).max(axis=0) < 1e-6) | ~ok)),
                   "a surface is shaded wrongly where it was hit", n=len(o), got=got, want=want)


def run(ctx):
    t = ctx.thorough
    arrangements = [[l] for l in ONE] + MANY
    for (b, w, c), f, k in core.product(list(itertools.product(range(len(C)), repeat=3)), FACTORS, range(len(arrangements))):
        if not t and (b + 2 * w + 3 * c + k + int(10 * f[0])) % 5:
            continue
        data = {"colors": [b, w, c], "factors": f, "lights": arrangements[k]}
        if ctx.selected(data):
            with ctx.case(data):
                if k % 3 == 0:
                    g = gooch.GoochMaterial(C[b], C[w], C[c], *f)
                elif f == (0.3, 0.3):
                    g = gooch.GoochMaterial(warm_color=C[w], base_color=C[b], cool_color=C[c])
                else:
                    g = gooch.GoochMaterial(beta=f[1], alpha=f[0], cool_color=C[c], base_color=C[b], warm_color=C[w])
                params = [np.array(np.asarray(C[i]), dtype=oracle.LD) for i in (b, w, c)] + [oracle.LD(v) for v in f]
                for m in (g, paint.Coat(g)):
                    check(ctx, m, params, arrangements[k], "Gooch material" if m is g else "traceable material")
    # factors beyond the ends of the scale: the documented formula has no limits
    for f, l in core.product([(-0.5, 0.3), (1.5, 0.2), (0.3, 2.5), (-1, -2)], [[ONE[0]], MANY[2]]):
        data = {"beyond": f, "lights": l}
        if ctx.selected(data):
            with ctx.case(data):
                check(ctx, gooch.GoochMaterial(C[2], C[3], C[1], *f), [np.array(np.asarray(C[i]), dtype=oracle.LD) for i in (2, 3, 1)] +
                      [oracle.LD(v) for v in f], l, "Gooch material")
    # colors brighter than white, or darker than black
    bright = [color.RGBAColor(2.5, 0.2, -0.4), color.RGBAColor(-0.1, 7, 1.2, 0.5), color.RGBAColor(1e-3, 0.4, 30)]
    for order, f, l in core.product(list(itertools.permutations(range(3))), FACTORS[:3], [[ONE[0]], MANY[3]]):
        data = {"bright": order, "factors": f, "lights": l}
        if ctx.selected(data):
            with ctx.case(data):
                b, w, c = (bright[i] for i in order)
                check(ctx, gooch.GoochMaterial(b, w, c, *f), [np.array(np.asarray(v), dtype=oracle.LD) for v in (b, w, c)] + [oracle.LD(v) for v in f],
                      l, "Gooch material")
    # many lights
    for n, f in core.product(list(range(6, 21)) + [31, 32, 33, 64, 65, 100, 129, 300], FACTORS[:2]):
        data = {"many lights": n, "factors": f}
        if ctx.selected(data):
            with ctx.case(data, steps=n):
                l = [(3 * np.cos(2.4 * i) * (1 + i % 5), 2 * np.sin(1.7 * i) - 5 * (i % 3), 4 - 0.9 * (i % 11)) for i in range(n)]
                check(ctx, gooch.GoochMaterial(C[2], C[3], C[1], *f), [np.array(np.asarray(C[i]), dtype=oracle.LD) for i in (2, 3, 1)] +
                      [oracle.LD(v) for v in f], l, "Gooch material")
    # the library
    col = {"WHITE": (1, 1, 1), "RED": (1, 0, 0), "GREEN": (0, 1, 0), "BLUE": (0, 0, 1), "YELLOW": (1, 1, 0), "ORANGE": (1, 0.5, 0),
           "BLACK": (0, 0, 0)}
    rgba = lambda n: np.array([*col[n], 1.0], dtype=oracle.LD)
    std = {n: [rgba(n), rgba("ORANGE"), rgba("BLUE"), oracle.LD("0.3"), oracle.LD("0.3")] for n in col}
    std["BLUE"] = [rgba("BLUE"), rgba("YELLOW"), rgba("BLUE"), oracle.LD("0.2"), oracle.LD("0.3")]
    library = [(n, getattr(gooch, n), std[n]) for n in col]
    library += [("absorber", matl.absorber, std["BLACK"]), ("mirror", matl.mirror, std["BLUE"]),
                ("refractor", matl.BasicRefractor(1.7), std["BLUE"]), ("sellmeier", matl.SellmeierRefractor(1, 0, 0, 0.01), std["BLUE"])]
    library += [("glass " + n, g, std["BLUE"]) for n, g in matl.glass.items()]
    library += [("coat", c, paint.parameters(p)) for c, p in zip(paint.COATS, paint.PAINTS)]
    specs = {"sphere": leaf("sphere", [1], [["scale", 1, 2, 0.5], ["move", 0.1, 0, 0]]), "cuboid": leaf("cuboid", [[-1, -0.5, -0.7], [1, 0.6, 0.9]], [["rz", 20]]),
             "cylinder": leaf("cylinder", [0.8, -1, 1.2], [["rx", 50]]), "paraboloid": leaf("paraboloid", [0.5, 2], [["move", 0, 0, -1]]),
             "plane": leaf("plane", [5, 5], [["rx", 33], ["ry", 21]])}
    for (name, m, params), lights in core.product(library, arrangements):
        data = {"library": name, "lights": lights}
        if ctx.selected(data):
            with ctx.case(data):
                check(ctx, m, params, lights, name)
                for s in specs.values():
                    on_surface(ctx, s, m, params, lights)
                    on_surface(ctx, s, m, params, lights, (3e4, -2e4, 5e4))
    for seq in core.sequences(EDITS, 5 if t else 4):
        data = {"edits": seq}
        if ctx.selected(data):
            with ctx.case(data, steps=1 + len(seq)):
                edits(ctx, seq)
