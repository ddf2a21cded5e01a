"""C26: cameras and renderers, pixel by pixel.  Cameras x scenes x lights x sequences of render / move / reset."""
import itertools
import numpy as np
import tinygfx.g3d as cg
from mc import core, oracle, paint, scene
from mc.scene import leaf as oracle_leaf
from tinygfx.g3d.materials import color, gooch
from mc.oracle import leaves
from checks import scenes

LEVEL = "model_checking"
RULE = ("state = camera (pixels, span, aspect, pose) in front of, inside, behind and beside a scene of one to four components, with "
        "both renderers; every pixel is compared with the nearest surface of the reference; and sequences of render, move object, "
        "move camera, reset; non-trivial = a pixel that shows a surface, or next to an edge")
ASSUMPTIONS = ["pixels whose ray grazes a face or runs into a rim are not judged",
               "the pixels around a change are those within max(1, size / 300) of the pixel right of or below it, as built",
               "a camera with a single row or column looks along the first line of its span, as built"]

CAMERAS = {
    "front": [["move", -6, 0.1, 0.2]],
    "top": [["ry", 90], ["rz", 90], ["move", 0.1, 0.2, 6]],
    "side": [["rz", 90], ["move", 0.05, -6, 0.1]],
    "oblique": [["ry", 30], ["rz", -140], ["move", 4, 3.6, 3]],
    "inside": [["rz", 20], ["move", 0.05, 0.02, 0.1]],
    "far": [["rz", 180], ["move", 60, -0.4, 0.3]],
    "past": [["move", 7, 0, 0]],
    "squeezed": [["scale", 1, 1.4, 0.6], ["rx", 25], ["move", -6, 0.2, 0]],
}
LIGHTS = [((3.0, -4.0, 9.0),), ((0, 10, 10),), ((-20.0, 5, 3), (1, 2, -8), (30, 30, 30))]


def as_argument(lights, k):
    if len(lights) > 1:
        return np.array([list(l) + [1.0] for l in lights]).T
    return (cg.Point(*lights[0]), tuple(lights[0]), list(lights[0]))[k % 3]


def camera_case(ctx, h, width, aspect, pose_ops):
    cam = cg.OrthographicCamera(h, width, aspect)
    pose = oracle.Pose()
    for op in [None] + list(pose_ops):
        if op is not None:
            oracle.apply_op(cam, op)
            pose.apply(op)
        res, span = cam.get_resolution(), cam.get_span()
        ctx.expect(res[0] == h and (abs(res[1] - aspect * h) <= 1 or res[1] == 1) and res[1] == int(res[1]), "wrong number of pixels", got=res)
        ctx.expect(abs(span[0] - width) < 1e-12 * width and abs(span[1] - aspect * width) < 1e-12 * aspect * width, "wrong span", got=span)
        rays = np.asarray(cam.generate_rays())
        if not ctx.expect(rays.shape == (2, 4, h * res[1]), "not one ray per pixel", got=rays.shape, want=(2, 4, h * res[1])):
            return
        want = paint.camera_rays(h, res[1], width, aspect * width, pose)
        size = 1 + float(np.abs(want[0]).max())
        ctx.expect(bool(np.all(np.abs(rays[0] - want[0]) < 1e-12 * size)), "camera rays start at the wrong places", n=rays.shape[2],
                   got=rays[0, :3, :3].T, want=want[0, :3, :3].T.astype(float))
        ctx.expect(bool(np.all(np.abs(rays[1] - want[1]) < 1e-12)), "camera rays look in the wrong direction", n=rays.shape[2],
                   got=rays[1, :3, :3].T, want=want[1, :3, :3].T.astype(float))
        ctx.nontrivial += rays.shape[2]
        rays[:] = 3      # what the caller does with them is his
        again = np.asarray(cam.generate_rays())
        ctx.expect(bool(np.all(np.abs(again[0] - want[0]) < 1e-12 * size)), "camera rays changed with the set returned before")


def paint_scene(nodes, k):
    """paints, coats and optical materials in turn; returns leaf -> look"""
    looks = {}
    j = k
    for n in nodes:
        for l in leaves(n.tree):
            if j % 3 == 1:
                l.real.material = paint.PAINTS[j % len(paint.PAINTS)]
            elif j % 3 == 2:
                l.real.material = paint.COATS[j % 2]
            looks[id(l)] = paint.look(l.real.material)
            j += 1
    return lambda leaf: looks[id(leaf)]


class Studio:
    def __init__(self, items, cam, k, size, bundled):
        self.nodes = scenes.build_scene(items)
        self.look = paint_scene(self.nodes, k)
        h, width, aspect = size
        self.cam = cg.OrthographicCamera(h, width, aspect)
        self.size = size
        self.pose = oracle.Pose()
        for op in CAMERAS[cam]:
            self.move_camera(op)
        self.lights = LIGHTS[k % len(LIGHTS)]
        self.shapes = shapes = [n.real for n in self.nodes]
        if bundled:
            shapes = tuple(shapes)
        self.shader = cg.renderers.ShadedRenderer(self.cam, shapes, as_argument(self.lights, k))
        self.edger = cg.renderers.EdgeRender(self.cam, shapes)
        self.kept = []

    def move_camera(self, op):
        oracle.apply_op(self.cam, op)
        self.pose.apply(op)

    def picture(self):
        h, v = self.cam.get_resolution()
        return paint.Picture(self.nodes, paint.camera_rays(h, v, self.size[1], self.size[2] * self.size[1], self.pose), (v, h))

    def judge(self, ctx, shaded=True, edges=True, results=True):
        pic = self.picture()
        if shaded:
            img = self.shader.render()
            self.kept.append((img, np.array(img)))
            want, known = pic.shaded(self.lights, self.look)
            if ctx.expect(np.shape(img) == want.shape, "shaded image of the wrong shape", got=np.shape(img), want=want.shape):
                bad = known & ~(np.abs(np.asarray(img) - want).max(axis=2) < 1e-6)
                self.count(ctx, known, pic)
                if bad.any():
                    i, j = np.argwhere(bad)[0]
                    ctx.fail("a pixel of the shaded image has the wrong color", n_bad=int(bad.sum()), pixel=[i, j], got=img[i, j],
                             want=want[i, j], sees=int(pic.label.reshape(pic.shape)[i, j]))
            if results:
                ctx.expect(np.array_equal(self.shader.get_results(), img) if hasattr(self.shader, "get_results") else True,
                           "the results are not the image")
        if edges:
            img = self.edger.render()
            self.kept.append((img, np.array(img)))
            want, known = pic.edges()
            if ctx.expect(np.shape(img) == (*want.shape, 4), "edge image of the wrong shape", got=np.shape(img), want=want.shape):
                full = np.zeros((*want.shape, 4))
                full[..., :3] = ~want[..., None]
                full[..., 3] = want
                bad = known & (np.asarray(img) != full).any(axis=2)
                self.count(ctx, known, pic, want)
                if bad.any():
                    i, j = np.argwhere(bad)[0]
                    ctx.fail("a pixel of the edge image is wrong", n_bad=int(bad.sum()), pixel=[i, j], got=img[i, j], want=full[i, j])
            if results:
                ctx.expect(self.edger.get_results() is not None and np.array_equal(self.edger.get_results(), img),
                           "the results of the edge renderer are not the image it rendered")

    def count(self, ctx, known, pic, want=None):
        n = known.size
        ctx.evaluations += n
        ctx.ambiguous += int((~known).sum())
        seen = (want if want is not None else pic.label.reshape(pic.shape) >= 0) & known
        ctx.nontrivial += int(seen.sum())
        ctx.count("edge pixels" if want is not None else "pixels showing a surface", int(seen.sum()))
        ctx.count("other pixels", n - int(seen.sum()))

    def unchanged(self, ctx):
        for img, was in self.kept:
            ctx.expect(np.array_equal(img, was), "an image rendered before was changed later")


STEPS = ["render", "move object", "move part", "move camera", "turn camera", "reset", "only edges", "add shape", "take shape"]


def history(ctx, items, seq, size):
    s = Studio(items, "front", 1, size, False)
    for k, op in enumerate(seq):
        if op == "render":
            s.judge(ctx)
        elif op == "only edges":
            s.judge(ctx, shaded=False)
        elif op == "move object":
            s.nodes[k % len(s.nodes)].apply(["move", 0.13, 0.41, -0.2])
        elif op == "move part":
            kids = s.nodes[0].kids
            (kids[1] if kids else s.nodes[0]).apply(["ry", 25])
        elif op == "move camera":
            s.move_camera(["move", -0.2, 0.1, 0.3])
        elif op == "turn camera":
            s.move_camera(["rz", -11])
        elif op == "add shape":
            new = scenes.build_scene(items[:1])[0]
            new.apply(["scale", 0.4, 0.4, 0.4])
            new.apply(["move", -1.5, 0.3 * (k + 1), -0.5])
            s.nodes.append(new)
            s.shapes.append(new.real)
            s.look = paint_scene(s.nodes, 1)
        elif op == "take shape":
            if len(s.nodes) > 1:
                s.nodes.pop(0)
                s.shapes.pop(0)
        elif op == "reset":
            s.shader.reset()
            s.edger.reset()
    s.judge(ctx)
    s.judge(ctx)
    s.unchanged(ctx)


def judge_crowd(ctx, n, as_one):
    """n small bodies side by side, each with its own paint, as n shapes or as one union"""
    cols = int(np.ceil(np.sqrt(n)))
    specs = []
    for i in range(n):
        y, z = (i % cols - (cols - 1) / 2) / cols * 5, (i // cols - (cols - 1) / 2) / cols * 5
        r = 1.9 / cols
        specs.append([oracle_leaf("sphere", [r], [["move", 0.01 * (i % 7), y, z]]),
                      oracle_leaf("cuboid", [[-r] * 3, [r, r, 0.8 * r]], [["rx", 11 * i], ["move", 0.02 * (i % 5), y, z]])][i % 2])
    spec = specs[0]
    for other in specs[1:]:
        spec = scene.csg("union", spec, other)
    s = Studio.__new__(Studio)
    s.nodes = [scene.build(spec)] if as_one else [scene.build(x) for x in specs]
    looks = {}
    for j, l in enumerate(l for nd in s.nodes for l in leaves(nd.tree)):
        c = color.RGBAColor(0.2 + 0.7 * (j * 0.618 % 1), 0.2 + 0.7 * (j * 0.414 % 1), 0.2 + 0.7 * (j * 0.302 % 1))
        l.real.material = looks[id(l)] = gooch.GoochMaterial(c, c, c, 0.3 + 0.001 * j, 0.2)
    s.look = lambda leaf: looks[id(leaf)]
    s.size = (5 * cols if cols < 11 else 3 * cols, 5.2, 1.0)
    s.cam, s.pose, s.kept, s.lights = cg.OrthographicCamera(*s.size), oracle.Pose(), [], LIGHTS[n % 3]
    for op in CAMERAS["front"]:
        s.move_camera(op)
    shapes = [nd.real for nd in s.nodes]
    s.shader, s.edger = cg.renderers.ShadedRenderer(s.cam, shapes, as_argument(s.lights, n)), cg.renderers.EdgeRender(s.cam, shapes)
    s.judge(ctx)
    s.unchanged(ctx)


def run(ctx):
    t = ctx.thorough
    for h, width, aspect in core.product((1, 2, 3, 7, 10, 40), (1.0, 0.05, 30.0), (1.0, 0.5, 0.75, 2.0, 0.1, 1.3)):
        for j, pose in enumerate(CAMERAS.values()):
            data = {"camera": [h, width, aspect], "pose": j}
            if ctx.selected(data):
                with ctx.case(data, steps=2 * (1 + len(pose))):
                    camera_case(ctx, h, width, aspect, pose)
    k = 0
    sizes = [(18, 5.3, 0.8), (11, 4.1, 1.3), (25, 6.2, 0.5)] if not t else [(48, 5.3, 0.8), (37, 4.1, 1.3), (60, 6.2, 0.5)]
    for label, items in scenes.families(False):
        if label[0] == "2" and not t and (k % 4):
            k += 1
            continue
        k += 1
        for c, cam in enumerate(CAMERAS):
            if not t and label[0] != "1" and (k + c) % 4:
                continue
            data = {"scene": label, "camera": cam}
            if ctx.selected(data):
                with ctx.case(data, steps=2):
                    s = Studio(items, cam, k, sizes[(k + c) % 3], k % 2)
                    s.judge(ctx)
                    s.unchanged(ctx)
    # cameras far away, and close by
    flat = [("sheet-mirror", "centre"), ("box-mirror", "right"), ("box-BK7", "left"), ("sheet-absorb", "front")]
    for (back, cam), r in itertools.product(itertools.product((1e2, 1e4, 1e6, 3e7, 1e9), ("front", list(CAMERAS)[1])), (1, 2, 4)):
        data = {"back": back, "camera": cam, "shapes": r}
        if ctx.selected(data):
            with ctx.case(data, steps=2):
                CAMERAS["back"] = [["move", -back, 0, 0]] + list(CAMERAS[cam])
                s = Studio(flat[:r] if back > 1e3 else [("ball-glass", "centre"), ("lens", "right"), ("cave", "left"), ("rod-SF5", "front")][:r],
                           "back", r, (18, 5.3, 0.8), r % 2)
                del CAMERAS["back"]
                s.judge(ctx)
    # crowds of surfaces, all of them in sight
    for n, as_one in core.product((12, 45, 90) if not t else (12, 45, 90, 160, 300), (False, True)):
        data = {"crowd": n, "one": as_one}
        if ctx.selected(data):
            with ctx.case(data, steps=2):
                judge_crowd(ctx, n, as_one)
    # large images have wider edges
    for size in ((310, 5.3, 0.1), (30, 5.3, 21.0)) + ((620, 5.3, 0.05), (901, 5.3, 0.02)) + (
            ((257, 5.3, 1.0),) if not t else ((257, 5.3, 1.0), (400, 5.3, 0.8), (129, 5.3, 2.0), (1100, 5.3, 0.1))):
        data = {"large": size}
        if ctx.selected(data):
            with ctx.case(data, steps=2):
                s = Studio([("snowman", "centre"), ("cave", "right")], "front", 2, size, False)
                s.judge(ctx)
    two = [("carved", "centre"), ("ball-mirror", "right")]
    for seq in core.sequences(STEPS, 4 if t else 3):
        data = {"steps": seq}
        if ctx.selected(data):
            with ctx.case(data, steps=2 + len(seq)):
                history(ctx, two, seq, (12, 5.3, 0.8))
    # nothing to see, and one shape that is a group's member
    data = {"empty": 1}
    if ctx.selected(data):
        with ctx.case(data):
            for shapes in ([], ()):
                cam = cg.OrthographicCamera(5, 2, 0.8)
                a = cg.renderers.ShadedRenderer(cam, shapes, (0, 0, 9)).render()
                b = cg.renderers.EdgeRender(cam, shapes).render()
                ctx.expect(np.shape(a) == (4, 5, 4) and not np.any(a), "an empty scene is not transparent")
                ctx.expect(np.shape(b) == (4, 5, 4) and not np.any(np.asarray(b)[..., 3]), "edges in an empty scene")
