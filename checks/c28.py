"""C28: plots.  Scenes x poses x views for the component image; systems x option combinations x operation sequences for the rays."""
import itertools
import numpy as np
import matplotlib.pyplot as plt
from matplotlib.quiver import Quiver
import pyrayt
import pyrayt.components as pc
import tinygfx.g3d as cg
from pyrayt import materials as matl
from tinygfx.g3d.materials import color, gooch
from mc import core, oracle, paint
from mc.oracle import LD, leaves
from checks import scenes, c29

LEVEL = "model_checking"
RULE = ("state = scene x view x resolution x bounds, whose image is compared pixel by pixel with what is nearest from above (or from "
        "the front) at the coordinates of the pixel; and tracer x view x color option after every sequence of trace / change / show, "
        "whose arrows are compared row by row with the results, where they are drawn; non-trivial = pixel showing a surface, or arrow")
ASSUMPTIONS = ["pixels whose ray grazes a face or runs into a rim are not judged",
               "an image row or column may be off its coordinate by up to half a pixel, as built",
               "with a single image row or column only its place on the axis is judged"]


def flat(k):
    """a paint that has one color whatever the light"""
    c = color.RGBAColor(0.15 + 0.1 * (k % 8), 0.9 - 0.12 * (k % 7), 0.2 + 0.3 * (k % 3))
    return gooch.GoochMaterial(c, c, c)


class View:
    def __init__(self, view):
        self.k = {"xy": (0, 1), "xz": (0, 2)}[view]
        # looking down on xy, and along +y on xz: x to the right, y or z up
        self.d = np.array({"xy": (0, 0, -1, 0), "xz": (0, 1, 0, 0)}[view], dtype=LD)
        self.depth = {"xy": 2, "xz": 1}[view]


def pixel_rays(v, image, top):
    a, b, c, d = image.get_extent()
    rows, cols = image.get_array().shape[:2]
    xs = a + (LD(b) - a) * np.arange(cols) / max(cols - 1, 1)
    ys = d - (LD(d) - c) * np.arange(rows) / max(rows - 1, 1)
    if image.origin == "lower":
        ys = ys[::-1]
    o = np.zeros((4, rows, cols), dtype=LD)
    o[3] = 1
    o[v.k[0]], o[v.k[1]] = xs[None, :], ys[:, None]
    o[v.depth] = top
    return np.stack((o.reshape(4, -1), np.repeat(v.d[:, None], rows * cols, axis=1)))


def box_of(nodes):
    pts = np.hstack([np.asarray(n.real.bounding_volume.bounding_points[:3]) for n in nodes])
    return pts.min(axis=1), pts.max(axis=1)


def judge_image(ctx, axis, nodes, view, shaded, bounds=None, paints=None):
    ims = axis.images
    if not ctx.expect(len(ims) == 1, "not exactly one image of the components", got=len(ims)):
        return
    im = ims[0]
    v = View(view)
    a, b, c, d = im.get_extent()
    lo, hi = box_of(nodes) if bounds is None else (np.asarray(bounds[0]), np.asarray(bounds[1]))
    eps = 1e-9 * (1 + np.abs((lo, hi)).max())
    ctx.expect(a <= lo[v.k[0]] + eps and b >= hi[v.k[0]] - eps and c <= lo[v.k[1]] + eps and d >= hi[v.k[1]] - eps,
               "the image does not cover the components", extent=[a, b, c, d], low=lo, high=hi)
    ctx.expect(b > a and d > c, "an image without size", extent=[a, b, c, d])
    wide = (b - a) / max(hi[v.k[0]] - lo[v.k[0]], (hi - lo).max() * 0.01, 1e-9)
    ctx.expect(wide < 20, "the components are lost in the image", extent=[a, b, c, d], low=lo, high=hi)
    arr = np.asarray(im.get_array())
    rows, cols = arr.shape[:2]
    if min(rows, cols) < 2:
        ctx.count("slender image")
        return
    nodes_box = box_of(nodes)
    top = nodes_box[1][2] + 1.37 if view == "xy" else nodes_box[0][1] - 1.37
    pic = paint.Picture(nodes, pixel_rays(v, im, top), (rows, cols))
    if shaded:
        want, known = pic.shaded([(0, 0, 1e9)], lambda l: paints[id(l)])
        bad = known & ~(np.abs(arr - want).max(axis=2) < 1e-6)
        seen = pic.label.reshape(rows, cols) >= 0
    else:
        want, known = pic.edges()
        full = np.zeros((rows, cols, 4))
        full[..., :3] = ~want[..., None]
        full[..., 3] = want
        bad = known & (arr != full).any(axis=2)
        want, seen = full, want
    ctx.evaluations += rows * cols
    ctx.nontrivial += int((seen & known).sum())
    ctx.ambiguous += int((~known).sum())
    ctx.count("image pixels", int((seen & known).sum()))
    if bad.any():
        i, j = np.argwhere(bad)[0]
        ctx.fail("a pixel of the drawn components is wrong", n_bad=int(bad.sum()), pixel=[i, j], shape=[rows, cols], got=arr[i, j], want=want[i, j],
                 extent=[a, b, c, d])


def axes():
    fig = plt.figure(figsize=(3.1, 2.3))
    return fig, fig.add_subplot()


def draw_case(ctx, items, view, shaded, res, bounds, shift, k):
    nodes = scenes.build_scene(items)
    paints, j = {}, 0
    for n in nodes:
        for op in shift:
            n.apply(op)
        for l in leaves(n.tree):
            if shaded:
                l.real.material = paints[id(l)] = flat(j)
            j += 1
    fig, ax = axes()
    try:
        before = [n.real.get_world_transform() for n in nodes]
        what = [n.real for n in nodes]
        if bounds == "wide":
            lo, hi = box_of(nodes)
            bounds = (lo - [1, 0.5, 0.2], hi + [0.3, 0.8, 0.4])
        kw = {} if bounds is None else {"bounds": bounds}
        if shaded is not True or k % 2:
            kw["shaded"] = shaded
        if k % 3 == 0 and len(what) == 1:
            what = what[0]
        elif k % 3 == 1:
            what = tuple(what)
        if k % 5 == 4:
            plt.sca(ax)
        else:
            kw["axis"] = ax
        if not (view == "xy" and k % 4 == 3):
            kw["view"] = view
        cg.renderers.draw(what, resolution=res, **kw)
        judge_image(ctx, ax, nodes, view, shaded, bounds, paints)
        for n, b in zip(nodes, before):
            ctx.expect(np.array_equal(n.real.get_world_transform(), b), "drawing moved a component")
    finally:
        plt.close(fig)


# -- rays -----------------------------------------------------------------------------------------------------
def judge_rays(ctx, fig, axis, frame, view, option, per_source, width):
    qs = [c for c in axis.collections]
    rows = len(frame)
    if rows == 0:
        ctx.expect(not qs, "rays are drawn although there are none", got=len(qs))
        ctx.count("no rays")
        return
    if not ctx.expect(len(qs) == 1 and isinstance(qs[0], Quiver), "the rays are not drawn as arrows", got=len(qs)):
        return
    q = qs[0]
    if not ctx.expect(len(q.get_offsets()) == rows and q.N == rows, "not one arrow per row", got=q.N, want=rows):
        return
    aspect = axis.get_aspect()
    ctx.expect(aspect == "equal" or aspect == 1, "rays are drawn with unequal scales", got=aspect)
    fig.canvas.draw()
    y = view[1]
    p0 = frame[["x0", y + "0"]].to_numpy(dtype=float)
    p1 = frame[["x1", y + "1"]].to_numpy(dtype=float)
    inv = axis.transData.inverted()
    offs = q.get_offset_transform().transform(q.get_offsets())
    one = len(q.get_paths())
    if not ctx.expect(one == rows, "not one arrow per row", got=one, want=rows):
        return
    ctx.evaluations += rows
    ctx.nontrivial += rows
    ctx.count("arrows", rows)
    span = 1e-6 * (1 + np.abs((p0, p1)).max())
    for i in range(rows):
        pts = inv.transform(q.get_transform().transform(q.get_paths()[i].vertices) + offs[i])
        u = p1[i] - p0[i]
        length = np.hypot(*u)
        if length < 6 * width:      # too short to have a shaft: a dot, or a head only
            ok = np.abs(pts - p0[i]).max() < 12 * width + length
            if not ok:
                ctx.fail("a short ray is drawn elsewhere", row=i, got=pts, want=[p0[i], p1[i]])
                return
            continue
        along = (pts - p0[i]) @ (u / length)
        across = (pts - p0[i]) @ np.array([-u[1], u[0]]) / length
        k = int(np.argmax(along))
        if not (np.abs(pts[k] - p1[i]).max() < span and along.min() > -3 * width - span and np.abs(across).max() < 3.1 * width + span):
            ctx.fail("an arrow does not run from the start to the end of its segment", row=i, start=p0[i], end=p1[i], tip=pts[k],
                     back=along.min(), across=np.abs(across).max())
            return
    fc = np.asarray(q.get_facecolors())
    if not ctx.expect(len(fc) in (1, rows), "colors do not match the rays", got=len(fc)):
        return
    fc = np.repeat(fc, rows, axis=0) if len(fc) == 1 else fc
    ctx.expect(bool(np.all(fc[:, 3] == 1)), "rays are not opaque")
    if option is None:
        ctx.expect(bool(np.all(fc == fc[0])), "rays have different colors though none were asked for")
    elif option == "wavelength":
        want = c29.reference(frame["wavelength"].to_numpy(dtype=float), 0.8).T
        ctx.expect(bool(np.all(np.abs(fc[:, :3] - want) < 1e-9)), "a ray does not have the color of its wavelength", n=rows, got=fc[:4],
                   want=want[:4])
    else:
        src = frame["id"].to_numpy() // per_source
        by = {}
        for s, c in zip(src, fc):
            by.setdefault(s, set()).add(tuple(np.round(c, 9)))
        ctx.expect(all(len(c) == 1 for c in by.values()), "rays of one source have different colors", colors={str(k): sorted(v) for k, v in by.items()})
        ctx.expect(len(set(next(iter(c)) for c in by.values())) == len(by), "two sources have the same color",
                   colors={str(k): sorted(v) for k, v in by.items()})


SYSTEMS = {
    "lens": lambda: ([pc.LineOfRays(0.6, wavelength=0.45).move_x(-2), pc.WedgeOfRays(10, wavelength=0.63).move(-2, 0, 0.05)],
                     [pc.biconvex_lens(3, 3, 0.4, aperture=1.5), pc.baffle((4, 4)).move_x(2)]),
    "mirrors": lambda: ([pc.ConeOfRays(5, wavelength=0.41).move(-2, 0.1, 0), pc.CircleOfRays(0.3, wavelength=0.58).move_x(-2),
                         pc.LineOfRays(0.2, wavelength=0.7).rotate_x(90).move_x(-1)],
                        [pc.plane_mirror(0.1, aperture=(2, 2)).rotate_z(225).move_x(2), pc.baffle((5, 5)).rotate_x(90).rotate_z(90).move_y(3.1),
                         pc.plane_mirror(0.2, aperture=2).move_x(-4)]),
    "one": lambda: (pc.ConeOfRays(20), pc.baffle((9, 9)).rotate_y(10).move_x(3)),
    "miss": lambda: ([pc.LineOfRays(0.6).rotate_z(180)], [pc.equilateral_prism(1, 0.8).move_x(3)]),
    "far": lambda: ([pc.LineOfRays(0.6).move(98, -50, 20)], [pc.thick_lens(2, -5, 0.3, material=matl.glass["SF5"]).move(100, -50, 20),
                                                          pc.baffle(3).move(103, -50, 20)]),
    "five": lambda: ([pc.LineOfRays(0.4).rotate_z(12 * k).move_y(0.1 * k) for k in range(5)], [cg.Sphere(4, material=matl.absorber)]),
}
OPS = ["trace", "more rays", "fewer rays", "limit", "reset", "load", "move component", "move source", "ids", "show"]


def one_source(s):
    return s if hasattr(s, "__iter__") else [s]


class Session:
    def __init__(self, name, n):
        self.sources, self.components = SYSTEMS[name]()
        self.tr = pyrayt.RayTracer(self.sources, self.components, rays_per_source=n, generation_limit=8)
        self.done, self.n, self.traced_n = False, n, n

    def step(self, ctx, op, k):
        t = self.tr
        if op == "trace":
            t.trace()
            self.done, self.traced_n = True, self.n
        elif op in ("more rays", "fewer rays"):
            self.n = self.n + 3 if op == "more rays" else max(1, self.n - 2)
            t.set_rays_per_source(self.n)
        elif op == "limit":
            t.set_generation_limit(2)
        elif op == "reset":
            t.reset()
            self.done = False
        elif op == "load":
            self.components = [pc.baffle((3, 3)).rotate_z(20).move_x(1.5), cg.Sphere(0.5, material=matl.mirror)][k % 2:]
            t.load_components(self.components)
        elif op == "move component":
            one_source(self.components)[0].move(0.3, -0.2, 0.1)
        elif op == "move source":
            one_source(self.sources)[0].rotate_z(3)
        elif op == "ids" and self.done:
            t.calculate_source_ids()
        elif op == "show":
            self.show(ctx, ("xy", "xz")[k % 2], (None, "wavelength", "source")[k % 3], k)

    def show(self, ctx, view, option, k):
        frame = self.tr.get_results()
        was = frame.copy(deep=True)
        comps = list(one_source(self.components))
        poses = [c.get_world_transform() for c in comps]
        fig, ax = axes()
        try:
            width = (0.01, 0.03)[k % 2]
            kw = {"resolution": 24}
            if option:
                kw["color_function"] = option
            if width != 0.01:
                kw["ray_width"] = width
            if k % 3 == 1:
                kw["shaded"] = True
            if view != "xy" or k % 2:
                kw["view"] = view
            if k % 4 == 2:
                plt.sca(ax)
            else:
                kw["axis"] = ax
            shown, real = [], plt.show
            plt.show = lambda *args, **kwargs: shown.append(1)
            try:
                self.tr.show(**kw)
            finally:
                plt.show = real
            ctx.expect(len(shown) == ("axis" not in kw), "a figure is not shown once without an axis, and left to the caller with one", shown=len(shown))
            ctx.expect(len(ax.images) == 1, "not exactly one image of the components", got=len(ax.images))
            im = np.asarray(ax.images[0].get_array())
            fig2, ax2 = axes()
            plt.sca(ax)
            cg.renderers.draw(comps, view=view, axis=ax2, shaded="shaded" in kw, resolution=24)
            ref = ax2.images[0]
            ctx.expect(np.array_equal(im, np.asarray(ref.get_array())) and np.allclose(ax.images[0].get_extent(), ref.get_extent()),
                       "the image is not that of the components")
            judge_rays(ctx, fig, ax, was if self.done else was.iloc[:0], view, option, self.traced_n, width)
            now = self.tr.get_results()
            ctx.expect(now.equals(was) and frame.equals(was), "showing changed the results")
            ctx.expect(all(np.array_equal(c.get_world_transform(), p) for c, p in zip(comps, poses)), "showing moved a component")
        finally:
            plt.close("all")


def run(ctx):
    t = ctx.thorough
    k = 0
    shifts = [[], [["move", 50, -20, 7]], [["rz", 40], ["move", -3, 0, -100]]]
    fam = [f for i, f in enumerate(scenes.families(False)) if f[0][0] == "1" or t or i % 5 == 0]
    for (label, items), view, shaded in core.product(fam, ("xy", "xz"), (True, False)):
        k += 1
        for j, (res, bounds, shift) in enumerate(core.product((20, 33), (None, "wide"), shifts)):
            if (k + j) % (5 if label[0] == "1" else 11) and not t:
                continue
            data = {"scene": label, "view": view, "shaded": shaded, "resolution": res, "bounds": bounds, "shift": shift}
            if ctx.selected(data):
                with ctx.case(data):
                    draw_case(ctx, items, view, shaded, res, bounds, shift, k + j)
    # documented components of every kind, flat, long and thin ones among them
    parts = {"baffle": lambda: pc.baffle((1, 2)), "round baffle": lambda: pc.baffle(1), "plane": lambda: pc.plane_mirror(0, aperture=2),
             "stop": lambda: pc.aperture(3, (1, 2)), "sheet": lambda: cg.XYPlane(2, 3, material=matl.absorber),
             "needle": lambda: cg.Cylinder(1e-4, 0, 5).rotate_y(90), "wire": lambda: cg.Cylinder(1e-4, 0, 5), "tower": lambda: cg.Cuboid((0, 0, 0), (1e-3, 4, 1)),
             "lens": lambda: pc.biconvex_lens(3, 3, 0.3), "mirror": lambda: pc.parabolic_mirror(2, 0.2), "prism": lambda: pc.equilateral_prism(1, 1)}
    for (name, make), view, shaded, far in core.product(parts.items(), ("xy", "xz"), (True, False), (0, 1500.0)):
        data = {"component": name, "view": view, "shaded": shaded, "and far away": far}
        if ctx.selected(data):
            with ctx.case(data):
                comps = [make()] + ([make().move_x(far)] if far else [])
                fig, ax = axes()
                try:
                    cg.renderers.draw(comps, view=view, axis=ax, shaded=shaded, resolution=50)
                    ctx.expect(len(ax.images) == 1, "no image of the components")
                    a, b, c, d = ax.images[0].get_extent()
                    lo, hi = box_of([type("n", (), {"real": x}) for x in comps])
                    y = {"xy": 1, "xz": 2}[view]
                    ctx.expect(a <= lo[0] + 1e-9 and b >= hi[0] - 1e-9 and c <= lo[y] + 1e-9 and d >= hi[y] - 1e-9 and b > a and d > c,
                               "the image does not cover the components", extent=[a, b, c, d], low=lo, high=hi)
                    fig.canvas.draw()
                finally:
                    plt.close(fig)
    # the rays
    for name, n, view, option, w in core.product(SYSTEMS, (1, 2, 5), ("xy", "xz"), (None, "wavelength", "source"), range(4)):
        data = {"system": name, "n": n, "view": view, "color": option, "variant": w}
        if ctx.selected(data):
            with ctx.case(data, steps=3):
                s = Session(name, n)
                if w != 3:
                    s.step(ctx, "trace", 0)
                s.show(ctx, view, option, w)
    # many sources
    for n, view in core.product((12, 13, 20, 40, 65), ("xy", "xz")):
        data = {"many sources": n, "view": view}
        if ctx.selected(data):
            with ctx.case(data, steps=3):
                SYSTEMS["crowd"] = lambda: ([pc.LineOfRays(0.4).rotate_z(5 * k).move_y(0.03 * k) for k in range(n)], [cg.Sphere(4, material=matl.absorber)])
                s = Session("crowd", 2)
                del SYSTEMS["crowd"]
                s.step(ctx, "trace", 0)
                s.show(ctx, view, "source", 0)
                s.show(ctx, view, "wavelength", 1)
    # many rays
    for name, n, view, option in core.product(("one", "lens", "mirrors"), (130, 700, 2600), ("xy", "xz"), (None, "wavelength", "source")):
        data = {"system": name, "many rays": n, "view": view, "color": option}
        if (n < 2000 or name == "one" or t) and ctx.selected(data):
            with ctx.case(data, steps=3):
                s = Session(name, n)
                s.step(ctx, "trace", 0)
                s.show(ctx, view, option, 0)
    for seq in core.sequences(OPS, 4 if t else 3):
        data = {"ops": seq}
        if ctx.selected(data):
            with ctx.case(data, steps=2 + len(seq)):
                s = Session(("lens", "mirrors", "one")[len(seq) % 3], 3)
                for k, op in enumerate(seq):
                    s.step(ctx, op, k)
                turn = OPS.index(seq[-1]) % 2 if seq else 0
                if len(seq) < 3 or turn:
                    s.show(ctx, "xy", "source", 0)
                if len(seq) < 3 or not turn:
                    s.show(ctx, "xz", "wavelength", 1)
