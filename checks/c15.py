"""C15: transforms and the queries that report them.  Every sequence of operations, accepted and rejected."""
import numpy as np
import tinygfx.g3d as cg
import pyrayt
from pyrayt import components
from mc import core, oracle
from mc.oracle import LD, mm

LEVEL = "model_checking"
RULE = ("state = object of every kind after a sequence of transforms, including ones that must be rejected; in every state "
        "world and object transform, position, orientation, rotation and coordinate conversions are compared with the "
        "extended-precision product of the individual matrices; every sequence runs with queries (and scribbling on what "
        "they return) after every step and with queries at the end only; every state is non-trivial")
ASSUMPTIONS = ["rotation queries are compared for rigid poses only (a scaled or sheared pose has no quaternion)"]

SHEAR = [[1, 0.5, 0, 1], [0, 2, -0.25, 0], [0.3, 0, 1, -2], [0, 0, 0, 1]]
SLIDE = [[1, 0.7, 0, 0.1], [0, 1, 0, 0], [0, -0.3, 1, 0], [0, 0, 0, 1.0]]     # keeps volumes
MIRRORED = [[0, 1, 0, 0.5], [1, 0, 0, 0], [0, 0, 1, 0.25], [0, 0, 0, 1]]
SINGULAR = {"flat": np.diag([1.0, 0, 1, 1]), "rank 1": np.ones((4, 4)), "no z": np.diag([1.0, 1, 0, 1]),
            "zero": np.zeros((4, 4))}
# name -> (call, model operations or None if it must be rejected)
OPS = {
    "move": (lambda o: o.move(1.5, -0.5, 0.25), [("move", 1.5, -0.5, 0.25)]),
    "move y": (lambda o: o.move(y=3), [("move", 0, 3, 0)]),
    "move_x": (lambda o: o.move_x(-2), [("move", -2, 0, 0)]),
    "move_y": (lambda o: o.move_y(0.7), [("move", 0, 0.7, 0)]),
    "move_z": (lambda o: o.move_z(1e3), [("move", 0, 0, 1e3)]),
    "rotate_x": (lambda o: o.rotate_x(30), [("rx", 30)]),
    "rotate_y": (lambda o: o.rotate_y(-115), [("ry", -115)]),
    "rotate_z": (lambda o: o.rotate_z(400), [("rz", 400)]),
    "rotate_x rad": (lambda o: o.rotate_x(np.pi / 6, units="rad"), [("rx", 30)]),
    "rotate_y rad": (lambda o: o.rotate_y(0.5, "rad"), [("ry", LD(0.5) * 180 / oracle.PI)]),
    "rotate_z rad": (lambda o: o.rotate_z(-2.5, units="rad"), [("rz", LD(-2.5) * 180 / oracle.PI)]),
    "scale": (lambda o: o.scale(2, 0.5, 1.25), [("scale", 2, 0.5, 1.25)]),
    "scale_x": (lambda o: o.scale_x(3), [("scale", 3, 1, 1)]),
    "scale_y": (lambda o: o.scale_y(0.1), [("scale", 1, 0.1, 1)]),
    "scale_z": (lambda o: o.scale_z(7), [("scale", 1, 1, 7)]),
    "scale_all": (lambda o: o.scale_all(0.3), [("scale", 0.3, 0.3, 0.3)]),
    "squeeze": (lambda o: o.scale(2, 0.5, 1), [("scale", 2, 0.5, 1)]),
    "stretch z": (lambda o: o.scale(0.25, 2, 2), [("scale", 0.25, 2, 2)]),
    "slide": (lambda o: o.transform(np.array(SLIDE)), [("tf", SLIDE)]),
    "shear": (lambda o: o.transform(np.array(SHEAR, dtype=float)), [("tf", SHEAR)]),
    "mirrored": (lambda o: o.transform(np.array(MIRRORED)), [("tf", MIRRORED)]),
    "tiny": (lambda o: o.move(1e-9, 0, 0).rotate_z(1e-6), [("move", 1e-9, 0, 0), ("rz", 1e-6)]),
    "scale x zero": (lambda o: o.scale(0, 1, 1), None), "scale_y zero": (lambda o: o.scale_y(0), None),
    "scale z negative": (lambda o: o.scale(1, 1, -1), None), "scale x negative": (lambda o: o.scale(-2, 2, 2), None),
    "scale y negative": (lambda o: o.scale(2, -2, 2), None),
    "scale_all zero": (lambda o: o.scale_all(0.0), None), "scale_all negative": (lambda o: o.scale_all(-1), None),
    "scale_x negative": (lambda o: o.scale_x(-0.5), None), "scale_z zero": (lambda o: o.scale_z(0), None),
    "rotate_x unit": (lambda o: o.rotate_x(30, "grad"), None), "rotate_y unit": (lambda o: o.rotate_y(1, "turn"), None),
    "rotate_z unit": (lambda o: o.rotate_z(30, units="degrees"), None),
}
for _k, _m in SINGULAR.items():
    OPS["singular " + _k] = (lambda o, m=_m: o.transform(m.copy()), None)

KINDS = {
    "world object": cg.WorldObject,
    "sphere": lambda: cg.Sphere(2),
    "cuboid": lambda: cg.Cuboid((-1, -2, -3), (1, 1, 1)),
    "csg": lambda: cg.csg.difference(cg.Sphere(1), cg.csg.union(cg.Cuboid(), cg.Cylinder(0.4).move_x(1))),
    "group": lambda: cg.ObjectGroup([cg.Sphere(1), cg.ObjectGroup([cg.Cuboid()])]),
    "camera": lambda: cg.OrthographicCamera(4, 2, 0.5),
    "source": lambda: components.ConeOfRays(20),
    "lamp": lambda: components.StaticLamp(1, 2),
    "lens": lambda: components.biconvex_lens(3, 3, 0.5),
    "part": None,
}
P1 = np.array([0.3, -1.2, 2.5, 1.0])
PN = np.array([[0, 1, 0, -3, 0.5], [0, 0, 1, 2, -0.5], [0, 0, 0, 1, 8], [1, 1, 1, 1, 0]], dtype=float)


class Thing:
    def __init__(self, kind):
        if kind == "part":      # a part of a composite, moved on its own
            self.obj = cg.Cuboid()
            self.whole = cg.csg.intersect(cg.csg.difference(cg.Sphere(1), self.obj), cg.Cylinder(2))
        else:
            self.obj = KINDS[kind]()
        # composites made by a factory start with a pose of their own
        start = np.asarray(self.obj.get_world_transform(), dtype=LD)
        self.pose = oracle.Pose()
        self.pose.m, self.pose.i = start, oracle.inverse(start)
        self.rigid = True
        self.start_rigid = np.allclose(start[:3, :3].T.astype(float) @ start[:3, :3].astype(float), np.eye(3), atol=1e-9)

    def apply(self, ctx, name):
        call, ops = OPS[name]
        if ops is None:
            try:
                call(self.obj)
            except (ValueError, np.linalg.LinAlgError):
                ctx.count("rejected")
                return
            ctx.fail(f"{name}: was accepted, it has to be rejected")
            return
        got = call(self.obj)
        ctx.expect(got is self.obj, f"{name}: does not return the object")
        for op in ops:
            self.pose.apply(op)
            self.rigid &= op[0] in ("move", "rx", "ry", "rz")
        ctx.count("accepted")


def close(got, want, size=1.0):
    want = np.asarray(want, dtype=float)
    got = np.asarray(got, dtype=float)
    return got.shape == want.shape and bool(np.all(np.abs(got - want) <= 1e-9 * (size + np.abs(want))))


def audit(ctx, th, what):
    o, m, i = th.obj, th.pose.m, th.pose.i
    size = float(np.abs(m).max())
    isize = float(np.abs(i).max())
    for _ in (0, 1):
        w, inv = o.get_world_transform(), o.get_object_transform()
        ctx.expect(close(w, m, size * 0.01 + 1e-3), f"{what}: wrong world transform", got=w, want=m.astype(float))
        ctx.expect(close(inv, i, isize * size), f"{what}: wrong object transform", got=inv, want=i.astype(float))
        w[:] = 7            # the caller may do with a copy what they want
        inv[:] = -3
    z = np.append(m[:3, 2], 0)
    z = z / np.sqrt((z ** 2).sum())
    for _ in (0, 1):
        pos, got = o.get_position(), o.get_orientation()
        ctx.expect(close(pos, m[:, 3], size), f"{what}: wrong position", got=pos, want=m[:, 3].astype(float))
        ctx.expect(close(got, z, 1.0), f"{what}: wrong orientation", got=got, want=z.astype(float))
        pos[:] = 5
        got[:] = -4
    if th.rigid and th.start_rigid:
        q = np.asarray(o.get_quaternion(), dtype=float)
        x, y, zz, ww = q
        rot = np.array([[1 - 2 * (y * y + zz * zz), 2 * (x * y - zz * ww), 2 * (x * zz + y * ww)],
                        [2 * (x * y + zz * ww), 1 - 2 * (x * x + zz * zz), 2 * (y * zz - x * ww)],
                        [2 * (x * zz - y * ww), 2 * (y * zz + x * ww), 1 - 2 * (x * x + y * y)]])
        ctx.expect(abs((q ** 2).sum() - 1) < 1e-12 and bool(np.abs(rot - m[:3, :3].astype(float)).max() < 1e-12),
                   f"{what}: wrong quaternion", got=q, want=m[:3, :3].astype(float))
        ctx.count("quaternion")
    for pts in (P1, PN, PN[:, :1], PN[:, :4], PN[:, 1:4], PN[:, :2], np.stack((PN, PN[:, ::-1])), np.stack((PN[:, :4], PN[:, 1:]))):
        keep = pts.copy()
        flat = pts.reshape(4, -1) if pts.ndim < 3 else np.hstack(list(pts))
        for f, mat, s in ((o.to_world_coordinates, m, size), (o.to_object_coordinates, i, isize * size)):
            want = mm(mat, flat.astype(LD)).astype(float)
            want = want.reshape(pts.shape) if pts.ndim < 3 else np.stack(np.hsplit(want, 2))
            got = f(pts)
            ctx.expect(close(got, want, s * 10), f"{what}: wrong coordinates from {f.__name__}", got=got, want=want)
        ctx.expect(bool(np.array_equal(keep, pts)), f"{what}: a coordinate conversion changed its argument")
    ctx.nontrivial += 1


def run(ctx):
    t = ctx.thorough
    names = list(OPS)
    short = ["move", "rotate_x", "rotate_z rad", "scale", "shear", "scale x zero", "scale z negative", "singular rank 1",
             "rotate_y unit", "rotate_y"]
    plans = []
    for kind in KINDS:
        plans.append((kind, names, 2))
        plans.append((kind, short, 4 if t else 3 if kind in ("csg", "part", "group") else 2))
    plans.append(("world object", names, 3 if t else 2))
    plans.append(("world object", short, 5 if t else 4))
    seen = set()
    for kind, alphabet, depth in plans:
        for seq in core.sequences(alphabet, depth):
            if (kind, seq) in seen:
                continue
            seen.add((kind, seq))
            for often in (False, True):
                if often and len(seq) < 2 or not (often or t or kind == "world object"):
                    continue
                data = {"kind": kind, "ops": list(seq), "query_each_step": often}
                if not ctx.selected(data):
                    continue
                with ctx.case(data, steps=len(seq)):
                    th = Thing(kind)
                    for name in seq:
                        th.apply(ctx, name)
                        if often:
                            audit(ctx, th, "after " + name)
                    if not often:
                        audit(ctx, th, "at the end")
    # steps of any size: what is moved by a tiny or huge amount is moved by exactly that
    for u in [10.0 ** k for k in range(-30, 19, 3)]:
        steps = {"move": ("move", 1.5 * u, -0.7 * u, u / 3), "x": ("move", -u / 7, 0, 0), "rx": ("rx", 33), "rz": ("rz", -118), "ry": ("ry", 1e-4),
                 "scale": ("scale", 2, 0.3, 1.25)}
        for kind, seq in core.product(("world object", "cuboid", "csg", "source"), core.sequences(list(steps), 3, 1)):
            data = {"unit": u, "kind": kind, "ops": list(seq)}
            if not ctx.selected(data) or (len(seq) == 3 and not t and (len(kind) + sum(map(len, seq)) + int(np.log10(u))) % 5):
                continue
            with ctx.case(data, steps=len(seq)):
                th = Thing(kind)
                for name in seq:
                    oracle.apply_op(th.obj, list(steps[name]))
                    th.pose.apply(steps[name])
                m = th.pose.m
                size, far = float(np.abs(m[:3, :3]).max()), float(np.abs(m[:3, 3]).max())
                w, p, back = th.obj.get_world_transform(), th.obj.get_position(), th.obj.to_object_coordinates(th.obj.get_position())
                ctx.nontrivial += 1
                ctx.expect(bool(np.abs(w[:3, :3] - m[:3, :3]).max() <= 1e-14 * size), "wrong rotation or scale", n=9, got=w, want=m.astype(float))
                ctx.expect(bool(np.abs(w[:3, 3] - m[:3, 3]).max() <= 4e-15 * far) and bool(np.abs(p[:3] - m[:3, 3]).max() <= 4e-15 * far),
                           "wrong position", n=6, got=p, want=m[:, 3].astype(float))
                ctx.expect(bool(np.abs(back[:3]).max() <= 1e-13 * far) and back[3] == 1, "the position is not at the origin of the object", n=4, got=back)
    # the matrix given to transform() stays the caller's, and objects do not share state
    for seq in core.sequences(["shear", "mirrored", "move", "scale"], 3, 1):
        data = {"independence": list(seq)}
        if not ctx.selected(data):
            continue
        with ctx.case(data, steps=len(seq)):
            a, b = Thing("sphere"), Thing("sphere")
            for name in seq:
                a.apply(ctx, name)
                m = np.array(SHEAR, dtype=float)
                keep = m.copy()
                b.obj.transform(m)
                b.pose.apply(("tf", SHEAR))
                ctx.expect(bool(np.array_equal(m, keep)), "transform() changed the matrix it was given")
                m[:] = 0
            audit(ctx, a, "first of two objects")
            b.rigid = False
            audit(ctx, b, "second of two objects")
