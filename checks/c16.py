"""C16: composites and groups move as one.  Nests x operation sequences on every node, and whole systems."""
import itertools
import numpy as np
import tinygfx.g3d as cg
import pyrayt
import pyrayt.components as pc
from mc import core, oracle, scene, trace, rays as R
from mc.scene import leaf
from checks import scenes, c04, c14

LEVEL = "model_checking"
RULE = ("state = nest of composites and groups after a sequence of transforms (and membership changes) applied to any of "
        "its nodes; in every state the transform of every part is compared with the one it must have, and the hits, ids and "
        "normals of every composite with the reference; and: whole systems traced before and after the same motion of all "
        "sources and components; non-trivial = a part that has moved, or a segment")
ASSUMPTIONS = ["rays of whole systems that are tangent or tied anywhere on their path are left out",
               "an object that is in a group twice, or in two groups, is not part of the space"]

OPS = {"nudge": ["move", 3e-7, -2e-7, 1e-7], "tick": ["rz", 2e-5], "swell": ["scale", 1 + 4e-7, 1 - 3e-7, 1],
       "hair": ["move", 3e-9, -2e-9, 4e-10], "breath": ["ry", 8e-9], "grain": ["scale", 1, 1 + 2e-10, 1 - 1e-9],
       "squeeze": ["scale", 2, 0.5, 1], "move": ["move", 1.3, -0.4, 0.8], "turn": ["rx", 65], "spin": ["rz", -120], "scale": ["scale", 1.5, 0.6, 2],
       "shear": ["tf", [[1, 0.3, 0, 0], [0, 1, 0, 0.5], [0, -0.2, 1, 0], [0, 0, 0, 1]]]}
SMALL = ("nudge", "tick", "swell", "squeeze", "hair", "breath", "grain")
A = leaf("sphere", [1])
B = leaf("cuboid", [[-0.6, -0.5, -0.9], [0.7, 1.3, 0.6]], [["move", 0.5, 0.2, 0.1]])
C = leaf("cylinder", [0.5, -1.5, 1.4], [["rx", 80], ["move", 0.1, 0.2, -0.1]])
D = leaf("paraboloid", [0.4, 1.2], [["ry", 60], ["move", -0.6, 0.1, 0]])
E = leaf("plane", [1.6, 1.8], [["rx", 30], ["move", 0.1, -0.1, 0.2]])


class Node:
    """real object with the pose it must have; kids move along with it"""

    def __init__(self, real, kids=(), tree=None, pose=()):
        self.real, self.kids, self.tree = real, list(kids), tree
        self.pose = oracle.Pose(pose)

    def moved(self, op):
        self.pose.apply(op)
        if isinstance(self.tree, oracle.Leaf):
            self.tree.pose.apply(op)
        for k in self.kids:
            k.moved(op)

    def apply(self, op):
        got = oracle.apply_op(self.real, op)
        assert got is self.real or got is None
        self.moved(op)

    def nodes(self):
        yield self
        for k in self.kids:
            yield from k.nodes()


def body(spec):
    n = scene.build(spec)
    return Node(n.real, tree=n.tree, pose=spec["ops"])


def join(kind, l, r):
    return Node(scene.CSG[kind](l.real, r.real), (l, r), (kind, l.tree, r.tree))


def group(*kids):
    return Node(cg.ObjectGroup([k.real for k in kids]), kids)


def other(make):
    return Node(make())


CSGS = {"a*b": lambda k: join(k[0], body(A), body(B)),
        "(a*b)*c": lambda k: join(k[1], join(k[0], body(A), body(B)), body(C)),
        "d*(a*b)": lambda k: join(k[1], body(D), join(k[0], body(A), body(B))),
        "(a*b)*(c*e)": lambda k: join(k[0], join(k[1], body(A), body(B)), join(k[0], body(C), body(E)))}
GROUPS = {
    "[a]": lambda: group(body(A)),
    "[a b e]": lambda: group(body(A), body(B), body(E)),
    "[a [b [c]]]": lambda: group(body(A), group(body(B), group(body(C)))),
    "[a-b [c*d]]": lambda: group(join("difference", body(A), body(B)), group(join("intersect", body(C), body(D)))),
    "[source camera [lamp a]]": lambda: group(other(lambda: pc.LineOfRays(1)), other(lambda: cg.OrthographicCamera(3, 2, 1)),
                                              group(other(lambda: pc.StaticLamp(1, 1)), body(A))),
    "[]": lambda: group(),
    "[[] [a []] [[]]]": lambda: group(group(), group(body(A), group()), group(group())),
    "[lens mirror]": lambda: group(*[made(f) for f in (lambda: pc.biconvex_lens(4, 5, 0.5),
                                                       lambda: pc.spherical_mirror(4, 0.3))]),
}


def made(f):
    """an object from a factory: comes with a pose"""
    real = f()
    n = Node(real)
    m = np.asarray(real.get_world_transform(), dtype=oracle.LD)
    n.pose.m, n.pose.i = m, oracle.inverse(m)
    return n


def audit(ctx, root, what, hits=True, dense=False):
    for nd in root.nodes():
        got = nd.real.get_world_transform()
        want = nd.pose.m.astype(float)
        ctx.expect(bool(np.abs(got - want).max() <= 1e-12 * max(1, np.abs(want).max())), f"{what}: a {type(nd.real).__name__} of the nest has "
                   "the wrong transform", got=got, want=want)
        ctx.nontrivial += 1
    if not hits:
        return
    outer = {}          # which way the surfaces face depends on the outermost composite they belong to
    for nd in root.nodes():
        if nd.tree is not None and not any(id(l) in outer for l in oracle.leaves(nd.tree)):
            outer.update(scene.orientation(nd.tree))
    for nd in root.nodes():
        if nd.tree is None or isinstance(nd.tree, oracle.Leaf) and nd is not root:
            continue
        rays = c14.aimed(nd, dense)
        L = oracle.Lines(nd.tree, rays)
        h, ids = nd.real.intersect(rays)
        leaves = oracle.leaves(nd.tree)
        scene.compare_hits(ctx, h, ids, nd.tree, rays, [l.real.get_id() for l in leaves], what, lines=L)
        for l in leaves:
            m = (np.asarray(ids) == l.real.get_id()) & np.isfinite(h) & ~L.risky(rays) & ~(L.tied & L.finite).any(axis=0)
            r, c = np.nonzero(m)
            if not len(r):
                continue
            pts = rays[0][:, c] + h[r, c] * rays[1][:, c]
            want, ok = l.normal(pts, tol=1e-5)
            got = l.real.get_world_normals(pts)[:3]
            s = outer[id(l)]
            bad = ok & (np.abs(got - s * np.asarray(want, dtype=float)).max(axis=0) > 1e-6)
            ctx.evaluations += len(r)
            if bad.any():
                ctx.fail(f"{what}: wrong normal on a part", kind=l.kind, n_bad=int(bad.sum()), got=got[:, bad][:, 0],
                         want=(s * np.asarray(want, dtype=float))[:, bad][:, 0])


def composites(ctx):
    t = ctx.thorough
    for name, make in CSGS.items():
        size = len(list(make(("union",) * 2).nodes()))
        for k in itertools.product(scene.CSG, repeat=1 if name == "a*b" else 2):
            two = ["move", "turn", "scale"] if t else ["move", "turn"]
            depth = 3 if t and size <= 3 else 2
            for seq in core.sequences(list(itertools.product(range(size), two)), depth):
                if not t and len(seq) == 2 and name != "a*b" and (seq[0][1] == seq[1][1]) and (seq[0][0] + seq[1][0]) % 2:
                    continue
                data = {"nest": name, "kinds": k, "ops": [list(s) for s in seq]}
                if not ctx.selected(data):
                    continue
                with ctx.case(data, steps=len(seq)):
                    root = make(k)
                    every = list(root.nodes())
                    for i, o in seq:
                        every[i].apply(OPS[o])
                    audit(ctx, root, "composite", dense=t)
            big = [o for o in OPS if o not in SMALL]
            for o in [*itertools.product(big, repeat=3 if t else 2), *itertools.product(SMALL, repeat=2),
                      *itertools.product(SMALL[:2], ('scale', 'turn'))]:
                data = {"nest": name, "kinds": k, "root_ops": o}
                if not ctx.selected(data):
                    continue
                with ctx.case(data, steps=len(o)):
                    root = make(k)
                    for x in o:
                        root.apply(OPS[x])
                    audit(ctx, root, "composite", dense=t)


def groups(ctx):
    t = ctx.thorough
    for name, make in GROUPS.items():
        size = len(list(make().nodes()))
        alphabet = list(itertools.product(range(size), ("move", "turn", "scale") if size < 6 else ("move", "turn")))
        alphabet += [(0, x) for x in SMALL]
        alphabet += [("append", x) for x in ("ball", "group", "composite")] + [("insert", "ball"), ("extend", ""),
                                                                             ("pop", ""), ("replace", ""), ("clear", "")]
        for seq in core.sequences(alphabet, 3 if t else 2):
            data = {"group": name, "ops": [list(s) for s in seq]}
            if not ctx.selected(data):
                continue
            with ctx.case(data, steps=len(seq) + 1):
                root = make()
                every = list(root.nodes())
                new = {"ball": lambda: body(A), "group": lambda: group(body(B), group(body(C))),
                       "composite": lambda: join("union", body(C), body(E))}
                for i, o in seq:
                    if i == "append":
                        root.kids.append(new[o]())
                        root.real.append(root.kids[-1].real)
                    elif i == "insert":
                        root.kids.insert(0, new[o]())
                        root.real.insert(0, root.kids[0].real)
                    elif i == "extend":
                        more = [new["ball"](), new["composite"]()]
                        root.kids += more
                        root.real.extend([m.real for m in more])
                    elif i == "pop" and root.kids:
                        every.append(root.kids.pop())
                        root.real.pop()
                    elif i == "replace" and root.kids:
                        every.append(root.kids[0])
                        root.kids[0] = new["ball"]()
                        root.real[0] = root.kids[0].real
                    elif i == "clear":
                        every += root.kids
                        root.kids = []
                        root.real.clear()
                    elif isinstance(i, int):
                        every[i].apply(OPS[o])
                root.apply(OPS["spin"])
                audit(ctx, root, "group", hits=t and len(seq) < 3)
                for nd in every:
                    audit(ctx, nd, "former or current member", hits=False)
                ctx.expect([id(x) for x in root.real] == [id(x.real) for x in root.kids], "members of the group changed")


def crowds(ctx):
    """groups of very many members, and deep ones"""
    def chain(n):
        g = group(body(A))
        for _ in range(n):
            g = group(g, body(B))
        return g
    def tower(n):
        c = body(A)
        for k in range(n):
            c = join(("union", "difference", "intersect")[k % 3], *((c, body(B)) if k % 2 else (body(C), c)))
        return c
    makes = {"flat": lambda n: group(*[body((A, B, C)[k % 3]) for k in range(n)]), "chain": chain, "tower": tower,
             "groups": lambda n: group(*[group(body(A), body(B)) for _ in range(n)])}
    for name, n, seq in itertools.product(makes, (5, 9, 17, 33, 70, 130) + ((300,) if ctx.thorough else ()), core.sequences(("move", "turn", "scale"), 2, 1)):
        data = {"crowd": name, "members": n, "ops": list(seq)}
        if (name in ("chain", "tower") and n > 40) or not ctx.selected(data):
            continue
        with ctx.case(data, steps=n):
            root = makes[name](n)
            for o in seq:
                root.apply(OPS[o])
            audit(ctx, root, "many members", hits=False)


MOTIONS = {"shift": [["move", 4, -7, 2.5]], "quarter": [["rx", 90]], "turn": [["rz", 37]], "tip": [["ry", -101]],
           "all": [["rz", 25], ["move", -3, 1, 8], ["rx", 140], ["ry", 60]]}


def moved_rows(df, pose):
    m = pose.m.astype(float)
    out = df.copy()
    for cols, w in ((("x0", "y0", "z0"), 1), (("x1", "y1", "z1"), 1), (("x_tilt", "y_tilt", "z_tilt"), 0)):
        p = np.vstack((df[list(cols)].to_numpy().T, np.full(len(df), w)))
        out[list(cols)] = (m @ p)[:3].T
    return out


def systems(ctx):
    """tracing commutes with rigid motions, done one by one, through a group, and before or after loading"""
    src = {"line": lambda: pc.LineOfRays(1.3, wavelength=0.45).move(-5, 0.08, 0.05),
           "cone": lambda: pc.ConeOfRays(9, wavelength=0.6).move(-5, 0.02, 0.03),
           "wedge": lambda: pc.WedgeOfRays(24, wavelength=0.7).rotate_x(30).move(-4.5, 0.1, -0.07),
           "lamp": None}
    n, limit = 9, 6
    fams = [f for f in scenes.families(False) if f[0][0] in "13" or sum(map(ord, f[0])) % (3 if ctx.thorough else 17) == 0]
    for i, (label, items) in enumerate(fams):
        for j, (mname, ops) in enumerate(MOTIONS.items()):
            if not ctx.thorough and (i + j) % 3:
                continue
            data = {"scene": label, "motion": mname}
            if not ctx.selected(data):
                continue
            with ctx.case(data, steps=2 * limit):
                nodes = scenes.build_scene(items)
                comps = [x.real for x in nodes]
                sources = [f() for f in src.values() if f]
                tr = pyrayt.RayTracer(sources, comps, rays_per_source=n, generation_limit=limit)
                em = trace.emit(sources, n)
                df = tr.trace()
                known = trace.conform(ctx, df, em, nodes, limit, what="before the motion", tol=1e-6)
                if known is None:
                    continue
                if (i + j) % 2:
                    g = cg.ObjectGroup(comps + sources)
                    for op in ops:
                        oracle.apply_op(g, op)
                else:
                    for o in comps + sources:
                        for op in ops:
                            oracle.apply_op(o, op)
                pose = oracle.Pose(ops)
                again = tr.trace() if j % 2 else pyrayt.RayTracer(sources, comps, rays_per_source=n,
                                                                  generation_limit=limit).trace()
                a, b = moved_rows(df, pose), again
                ta, tb = c04.table(a), c04.table(b)
                for r in np.nonzero(known)[0]:
                    x, y = ta.get(int(r), []), tb.get(int(r), [])
                    ctx.nontrivial += len(x)
                    ctx.evaluations += len(x)
                    if len(x) != len(y):
                        ctx.fail(f"moved system: a ray has {len(y)} segments instead of {len(x)}", ray=int(r))
                        break
                    bad = [k for k, (p, q) in enumerate(zip(x, y)) if p[4] != q[4]
                           or not np.allclose(p, q, rtol=1e-7 * 10 ** k, atol=1e-7 * 10 ** k)]
                    if bad:
                        ctx.fail("moved system: a ray takes a different path", ray=int(r), generation=bad[0],
                                 want=dict(zip(c04.COLS, x[bad[0]])), got=dict(zip(c04.COLS, y[bad[0]])))
                        break


def run(ctx):
    composites(ctx)
    groups(ctx)
    crowds(ctx)
    systems(ctx)
