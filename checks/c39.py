"""C39: materials, sources and paints of the user's own.  Scenes x ways of writing them x ways of sharing them."""
import itertools
import numpy as np
import pyrayt
import pyrayt.components as pc
import tinygfx.g3d as cg
from pyrayt import materials as matl
from tinygfx.g3d.materials import gooch
from mc import core, trace, scene, oracle, paint
from mc.oracle import LD, leaves
from mc.scene import leaf
from checks import scenes, c02

LEVEL = "model_checking"
RULE = ("state = scene (single bodies, pairs, nested composites, stacks of layers) whose surfaces carry materials written by the user, "
        "one for everything, one per component or one per surface, and sources written by the user; everything a material is called "
        "with is recorded and matched with the rows, and the trace with the reference; pictures with paints of the user's own are "
        "compared pixel by pixel; non-trivial = a ray given to a material, a ray of a source, a painted pixel")
ASSUMPTIONS = ["a ray below the intensity threshold may still be given to a material although it has no row any more",
               "a material changes the rays it is given in place and returns them, as documented"]


class Cauchy(matl.Glass):
    """a glass of the user's own: only its index is defined"""

    def __init__(self, a):
        super().__init__()
        self.a, self.asked = a, []

    def index_at(self, wavelength):
        self.asked.append(np.array(wavelength, dtype=float))
        return self.a + 0.006 / np.asarray(wavelength) ** 2


class Split(matl.TracableMaterial):
    """a dichroic mirror"""

    def __init__(self, limit, style):
        super().__init__()
        self.limit, self.style = limit, style

    def trace(self, surface, ray_set):
        back = np.asarray(ray_set.wavelength) < self.limit
        n = surface.get_world_normals(ray_set.rays[0])
        if self.style == "masked":
            if back.any():
                ray_set.rays[1][:, back] = cg.reflect(np.array(ray_set.rays[1])[:, back], n[:, back])
        elif self.style == "ray by ray":
            for k in np.nonzero(back)[0]:
                d = np.array(ray_set.rays[1, :, k])
                ray_set.rays[1, :, k] = d - 2 * n[:, k] * (d @ n[:, k])
        else:
            d = np.array(ray_set.rays[1])
            ray_set.rays[1] = np.where(back, d - 2 * n * (d * n).sum(0), d)
        return ray_set


def own_material(name, style):
    """materials by name; those only a user can have are written in several styles"""
    if name is not None and name.startswith("cauchy"):
        return Cauchy(float(name[6:]))
    if name is not None and name.startswith("split"):
        return Split(float(name[5:]), style)
    return scene.material(name)


FIELDS = ("wavelength", "intensity", "index", "id")


class Probe(matl.TracableMaterial):
    """writes down what it is called with, and acts as another material"""

    def __init__(self, log):
        super().__init__()
        self.log, self.inner = log, {}

    def trace(self, surface, ray_set):
        self.log.append((self, surface, type(ray_set), np.array(ray_set.rays), {f: np.array(getattr(ray_set, f), dtype=float) for f in FIELDS}))
        return self.inner[surface.get_id()].trace(surface, ray_set)


def fit(nodes, how, style):
    """put probes on all surfaces; returns the log"""
    log = []
    one = Probe(log)
    for n in nodes:
        mine = Probe(log)
        for l in leaves(n.tree):
            p = {"one": one, "component": mine}.get(how) or Probe(log)
            p.inner[l.real.get_id()] = own_material(l.material, style)
            l.real.material = p
    return log


def account(ctx, df, log, nodes, threshold=0.1):
    """every row that ends on a surface was given to its material once, as it was there, and nothing else was"""
    rows = {}
    D = {c: df[c].to_numpy(dtype=float) for c in trace.COLS}
    surfaces = {l.real.get_id(): l.real for n in nodes for l in leaves(n.tree)}
    for k in np.lexsort((D["generation"], D["id"])):
        rows.setdefault((int(D["id"][k]), int(D["surface"][k])), []).append(k)
    given = {}
    for probe, surface, kind, rays, f in log:
        m = rays.shape[-1]
        if not ctx.expect(issubclass(kind, pyrayt.RaySet) and rays.shape == (2, 4, m) and all(v.shape == (m,) for v in f.values()),
                          "a material is not given a ray set", got=str(kind)):
            return
        sid = surface.get_id() if hasattr(surface, "get_id") else None
        if not ctx.expect(sid in surfaces and surface is surfaces[sid] and surface.material is probe, "a material is called for a surface that is not its own"):
            return
        for k in range(m):
            if f["intensity"][k] >= threshold:
                given.setdefault((int(f["id"][k]), sid), []).append((rays[:, :, k], {x: v[k] for x, v in f.items()}))
    odd = set(rows) ^ set(given)
    if odd:
        i, s = sorted(odd)[0]
        ctx.fail("a material is given a ray that did not hit its surface" if (i, s) in given else "a ray that hit a surface was not given to its material",
                 ray=i, surface=s, n_bad=len(odd))
        return
    for key, ks in rows.items():
        g = given[key]
        if not ctx.expect(len(g) == len(ks), "a ray is given to a material a wrong number of times", ray=key[0], surface=key[1], n=len(ks), got=len(g)):
            return
        for k, (r, f) in zip(ks, g):
            end = np.array([D["x1"][k], D["y1"][k], D["z1"][k], 1])
            tilt = np.array([D["x_tilt"][k], D["y_tilt"][k], D["z_tilt"][k], 0])
            ctx.nontrivial += 1
            if not ctx.expect(bool(np.all(np.abs(r[0] - end) < 1e-10 * (1 + np.abs(end).max()))) and bool(np.all(np.abs(r[1] - tilt) < 1e-10)),
                              "a material is given a ray elsewhere than where it hits", ray=key[0], surface=key[1], got=r, want=[end, tilt]):
                return
            if not ctx.expect(all(abs(f[x] - D[x][k]) <= 1e-12 * (1 + abs(f[x])) for x in FIELDS[:3]),
                              "a material is given a ray in another state than it arrived in", ray=key[0], got=f, want={x: D[x][k] for x in FIELDS}):
                return
    ctx.evaluations += len(df)


def check(ctx, src, nodes, n, limit, how, style):
    log = fit(nodes, how, style)
    em = trace.emit(src, n)
    tr = pyrayt.RayTracer(src, [x.real for x in nodes], rays_per_source=n, generation_limit=limit)
    for _ in range(2):
        del log[:]
        df = tr.trace()
        trace.invariants(ctx, df, em.shape[1])
        trace.conform(ctx, df, em, nodes, limit)
        account(ctx, df, log, nodes)


# --- sources ------------------------------------------------------------------------------------------------------

class Mine(pc.Source):
    """a source of the user's own: everything about its rays differs, and directions have any length"""

    def __init__(self, step, wavelength=0.55, attributes=True):
        super().__init__(wavelength)
        self.step, self.attributes, self.asked = step, attributes, []

    def local(self, n):
        k = np.arange(n)
        o = np.stack((0.1 * k, self.step * (k - 1.3), 0.05 * k * (-1.0) ** k))
        d = np.stack((1.0 + k, 0.2 * np.sin(1.0 + k), 0.1 * np.cos(3.0 * k)))
        w = self.wavelength + 0.01 * k if self.attributes else np.full(n, self.wavelength)
        return o, d, w, (100 / (1.0 + k) if self.attributes else np.full(n, 100.0)), (1 + 0.1 * (k % 3) if self.attributes else np.ones(n))

    def _local_ray_generation(self, n_rays):
        self.asked.append(n_rays)
        o, d, w, i, x = self.local(n_rays)
        rs = pyrayt.RaySet(n_rays)
        rs.rays[0, :3], rs.rays[1, :3], rs.wavelength = o, d, w
        if self.attributes:
            rs.intensity, rs.index = i, x
        return rs


POSES = [[], [["move", 1, -2, 0.3]], [["rz", 40], ["move", 0, 0.2, 0]], [["ry", 200], ["rx", 31], ["move", 3, 0, 1]], [["scale", 2, 1, 0.5], ["rz", -15]]]


def sources(ctx, members, n, pose):
    """members: which sources are the user's own"""
    src, want = [], []
    for k, kind in enumerate(members):
        if kind == "line":
            s = pc.LineOfRays(0.8, wavelength=0.45)
        else:
            s = Mine(0.1 + 0.05 * k, 0.5 + 0.1 * k, kind == "mine")
        p = oracle.Pose()
        for op in pose:
            oracle.apply_op(s, op)
            p.apply(op)
        if kind == "line":
            m = np.array(s.generate_rays(n))
            want.append(np.concatenate((m[:3], m[4:7], m[[10, 9, 11]])).astype(LD))
        else:
            o, d, w, i, x = s.local(n)
            o = oracle.mm(p.m, np.vstack((o, np.ones(n))).astype(LD))[:3]
            d = oracle.mm(p.m[:3, :3], d.astype(LD))
            d = d / np.sqrt((d ** 2).sum(0))
            want.append(np.concatenate((o, d, np.stack((w, i, x)).astype(LD))))
            s.asked = []
        src.append(s)
    want = np.concatenate(want, axis=1)
    room = cg.Cuboid((-50, -50, -50), (50, 50, 50), material=matl.absorber)
    tr = pyrayt.RayTracer(src if len(src) > 1 else src[0], room, rays_per_source=n)
    for again in range(2):
        df = tr.trace().sort_values("id")
        got = df[["x0", "y0", "z0", "x_tilt", "y_tilt", "z_tilt", "wavelength", "intensity", "index"]].to_numpy(dtype=float).T
        tr.calculate_source_ids()
        live = want[7] >= 0.1
        ids = np.nonzero(live)[0]
        if ctx.expect(got.shape == (9, len(ids)) and np.array_equal(df["id"].to_numpy(dtype=float), ids), "not one row per ray of the sources", n=n):
            ctx.expect(bool(np.all(np.abs(got - want[:, live]) < 1e-11 * (1 + np.abs(want[:, live])))), "rays of a source are not the ones it made", n=n,
                       got=got[:, :3], want=want[:, live][:, :3].astype(float))
            ctx.expect(np.array_equal(tr.get_results().sort_values("id")["source_id"].to_numpy(), ids // n), "rays are attributed to another source")
        ctx.nontrivial += want.shape[1]
    for s in src:
        if isinstance(s, Mine):
            ctx.expect(len(s.asked) >= 2 and all(k == n for k in s.asked), "a source is asked for another number of rays than set", got=s.asked, n=n)


# --- paints -------------------------------------------------------------------------------------------------------

class Paint(gooch.Material):
    """colors that tell where a pixel is, which way the surface faces there and which paint was used"""

    def __init__(self, number, log):
        self.number, self.log = number, log

    def shade(self, rays, normals, light_positions):
        self.log.append((np.shape(rays), np.shape(normals), np.array(light_positions, dtype=float)))
        return colors(self.number, np.asarray(rays)[0], np.asarray(rays)[1], np.asarray(normals))


def colors(number, p, d, n):
    return np.stack((0.5 + 0.1 * p[0] + 0.03 * n[0] + 0.001 * d[0], 0.5 + 0.1 * p[1] + 0.03 * n[1], 0.5 + 0.1 * p[2] + 0.03 * n[2] + 0.001 * d[1],
                     np.broadcast_to(0.1 + 0.05 * number, p[0].shape)))


class CoatOf(matl.TracableMaterial):
    def trace(self, surface, ray_set):
        return ray_set


def painted(ctx, items, cam, size, lights, coated):
    nodes = scenes.build_scene(items)
    log, number = [], {}
    for j, l in enumerate(l for n in nodes for l in leaves(n.tree)):
        p = Paint(j, log)
        l.real.material = CoatOf(p) if coated and j % 2 else p
        number[id(l)] = j
    camera = cg.OrthographicCamera(*size)
    pose = oracle.Pose()
    for op in cam:
        oracle.apply_op(camera, op)
        pose.apply(op)
    li = np.array([list(x) + [1.0] for x in lights]).T if len(lights) > 1 else cg.Point(*lights[0])
    img = np.asarray(cg.renderers.ShadedRenderer(camera, [n.real for n in nodes], light_position=li).render())
    h, v = camera.get_resolution()
    rays = paint.camera_rays(h, v, size[1], size[2] * size[1], pose)
    pic = paint.Picture(nodes, rays, (v, h))
    want, known = np.zeros((4, rays.shape[2])), ~pic.amb
    for k, p in enumerate(pic.ps):
        for j, l in enumerate(p.leaves):
            m = known & (pic.near.part == k) & (pic.near.leaf == j)
            if m.any():
                pts = rays[0][:, m] + pic.near.t[m] * rays[1][:, m]
                nrm, ok = l.normal(pts, tol=3e-5)
                known[np.nonzero(m)[0][~ok]] = False
                nrm = np.vstack((np.asarray(nrm)[:3] * p.sign[id(l)], np.zeros((1, m.sum()))))
                want[:, m] = colors(number[id(l)], pts, rays[1][:, m], nrm).astype(float)
    want = want.T.reshape(v, h, 4)
    known = known.reshape(v, h)
    ctx.evaluations += known.size
    ctx.ambiguous += int((~known).sum())
    ctx.nontrivial += int((known & (pic.label.reshape(v, h) >= 0)).sum())
    if ctx.expect(img.shape == want.shape, "a picture of the wrong shape", got=img.shape):
        bad = known & ~(np.abs(img - want).max(axis=2) < 1e-6)
        if bad.any():
            i, j = np.argwhere(bad)[0]
            ctx.fail("a pixel does not have the color its paint gives it", n_bad=int(bad.sum()), pixel=[i, j], got=img[i, j], want=want[i, j])
    for r, n, l in log:
        ctx.expect(len(r) == 3 and r[:2] == (2, 4) and n[0] in (3, 4) and n[1:] == r[2:], "a paint is given points and normals of different numbers", got=[r, n])
        ctx.expect(np.array_equal(np.asarray(l, dtype=float).reshape(-1)[:3], np.asarray(li, dtype=float).reshape(-1)[:3]) if len(lights) == 1 else
                   np.array_equal(l, li), "a paint is given other lights", got=l)


def run(ctx):
    t = ctx.thorough
    o, d = scenes.lattice(t)
    src = c02.varied(o, d)
    hows, styles = ("one", "component", "surface"), ("masked", "ray by ray", "all")
    for k, (label, items) in enumerate(scenes.families(t)):
        if not t and label[0] in "23" and k % 4:
            continue
        for how in hows if t or label[0] == "1" else hows[k % 3:][:1]:
            data = {"scene": label, "probes": how}
            if ctx.selected(data):
                with ctx.case(data, steps=2):
                    check(ctx, src, scenes.build_scene(items), len(src), 6, how, "masked")
    # materials only a user has, alone and in stacks
    o2 = np.array([(-3, y, z) for y in np.linspace(-1, 1, 5) for z in (-0.4, 0.05, 0.6)])
    d2 = np.array([(1, 0.1 * a, 0.05 * b) for a in (-1, 0, 1) for b in (-1, 0, 1)])
    src2 = c02.varied(np.repeat(o2, len(d2), axis=0), np.tile(d2, (len(o2), 1)))
    names = ["cauchy1.5", "split0.5", "split0.7", "cauchy1.8", "mirror", "BK7", "dim0.004", "wave0.4", "index1.5"]
    for depth in (1, 2, 3) + ((4,) if t else ()):
        for stack in itertools.product(names, repeat=depth):
            if not any(s.startswith(("cauchy", "split")) for s in stack) or depth == 4 and len(set(stack)) < 3:
                continue
            for j, how in enumerate(hows if t or depth < 3 else hows[sum(map(names.index, stack)) % 3:][:1]):
                style = styles[(j + sum(map(names.index, stack))) % 3]
                data = {"stack": stack, "probes": how, "style": style}
                if ctx.selected(data):
                    with ctx.case(data, steps=2):
                        check(ctx, src2, c02.layers(stack), len(src2), 9, how, style)
    # one user's glass in several bodies
    for name, how, kind in core.product(("cauchy1.4", "cauchy1.7", "split0.6"), hows, ("one", "line", "two", "tuple")):
        data = {"shared": name, "probes": how, "sources": kind}
        if ctx.selected(data):
            with ctx.case(data, steps=2):
                nodes = [scene.build(scene.leaf("sphere", [0.7], [["move", 1.7 * k, 0.1 * k, 0]], name) if k % 2 else
                                     scene.leaf("cuboid", [[-0.3, -2, -2], [0.3, 2, 2]], [["rz", 9], ["move", 1.7 * k, 0, 0]], name)) for k in range(3)]
                check(ctx, c02.sources(kind), nodes, 4, 12, how, "all")
    for members, n, pose in core.product([("mine",), ("plain",), ("mine", "mine"), ("line", "mine"), ("mine", "line", "plain"), ("mine",) * 5],
                                         (1, 2, 3, 7, 40) + ((200, 1001) if t else ()), POSES):
        data = {"sources": members, "n": n, "pose": pose}
        if ctx.selected(data):
            with ctx.case(data, steps=2):
                sources(ctx, members, n, pose)
    cams = [c for c in ("front", "top", "oblique", "inside")]
    from checks import c26
    for k, (label, items) in enumerate(scenes.families(t)):
        if label[0] != "1" and (not t or k % 3) and k % 13:
            continue
        for j, cam in enumerate(cams if t else cams[k % 4:][:1]):
            data = {"painted": label, "camera": cam}
            if ctx.selected(data):
                with ctx.case(data):
                    lights = c26.LIGHTS[(k + j) % len(c26.LIGHTS)]
                    painted(ctx, items, c26.CAMERAS[cam], (23, 5.1, 0.83), lights, bool(k % 2))
