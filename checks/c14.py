"""C14: bounding boxes enclose, and never hide, after any history of building and moving."""
import itertools
import numpy as np
from mc import core, oracle, scene, rays as R
from mc.scene import leaf

LEVEL = "model_checking"
RULE = ("state = CSG tree built up in stages, after a sequence of transforms applied to any of its nodes at any stage; in "
        "every state all boxes must contain all boundary points of their object and the hits of every node along a bundle of "
        "lines aimed at all of its parts must be those of the reference, which knows no boxes; non-trivial = a hit")
ASSUMPTIONS = ["the box of a composite that is empty is not checked", "tangent lines are not compared"]

LEAVES = {"A": [leaf("sphere", [1]), leaf("cuboid", [[-0.9, -0.7, -0.8], [0.8, 0.9, 1.0]]),
                leaf("cylinder", [0.7, -1.1, 1.2])],
          "B": [leaf("cuboid", [[-0.6, -0.5, -0.9], [0.7, 1.3, 0.6]], [["move", 0.5, 0.2, 0.1]]),
                leaf("paraboloid", [0.4, 1.2], [["ry", 60], ["move", -0.6, 0.1, 0]]),
                leaf("paraboloid", [1.1, 0.35], [["rx", 25], ["move", 0.2, 0.1, -0.2]]),
                leaf("plane", [1.6, 1.8], [["rx", 30], ["move", 0.1, -0.1, 0.2]])],
          "C": [leaf("sphere", [0.8], [["scale", 1, 1.6, 0.7], ["move", 0.3, -0.4, 0.2]]),
                leaf("cylinder", [0.5, -1.5, 1.4], [["rx", 80], ["move", 0.1, 0.2, -0.1]]),
                leaf("cuboid", [[-0.4, -0.4, -1.2], [0.5, 0.4, 1.3]], [["rz", 30]])]}
OPS = {"move": ["move", 1.7, -0.9, 0.6], "back": ["move", -2.5, 0.4, -0.3], "turn": ["rz", 50], "tip": ["ry", -75],
       "grow": ["scale", 2, 1.2, 1.5], "shrink": ["scale", 0.5, 0.7, 0.4],
       "shear": ["tf", [[1, 0.4, 0, 0.2], [0, 1, -0.3, 0], [0.2, 0, 1, -0.1], [0, 0, 0, 1]]]}
CORNERS = R.grid([-0.93, 0.04, 0.87], [-0.95, 0.07, 0.91], [-0.89, -0.03, 0.96])
EYES = [(-9.3, 0.7, 0.9), (2.1, 8.7, -1.3), (-1.7, 0.3, 11.0), (0.17, -0.05, 0.12), (14.2, -5.1, 3.3)]


def aimed(node, dense=True):
    """lines through points all over the parts, from several eyes"""
    out = []
    for l in oracle.leaves(node.tree):
        k, p = l.kind, l.params
        half = {"sphere": lambda: ([0, 0, 0], [p[0]] * 3), "plane": lambda: ([0, 0, 0], [p[0] / 2, p[1] / 2, 0.1]),
                "cuboid": lambda: (np.mean(p, axis=0), np.ptp(p, axis=0) / 2),
                "cylinder": lambda: ([0, 0, (p[1] + p[2]) / 2], [p[0] * 0.75, p[0] * 0.75, (p[2] - p[1]) / 2]),
                "paraboloid": lambda: ([0, 0, p[1] / 2], [np.sqrt(4 * p[0] * p[1]) * 0.6] * 2 + [p[1] / 2])}[k]()
        pts = np.array(half[0]) + CORNERS * np.array(half[1]) * (0.6 if k == "sphere" else 1)
        w = np.asarray(oracle.mm(l.pose.m, np.vstack((pts.T, np.ones(len(pts)))).astype(oracle.LD)), dtype=float)
        out.append(R.aim(EYES if dense else EYES[:1] + EYES[2:4], w[:3].T))
    return R.join(*out)


def inside_box(ctx, real, pts, what):
    """pts: 3xn boundary points of the object"""
    box = real.bounding_box
    spans = np.asarray(box.axis_spans, dtype=float)
    if not ctx.expect(bool(np.all(spans[:, 0] <= spans[:, 1]) and not np.isnan(spans).any()),
                      f"{what}: the bounding box has no extent", spans=spans):
        return
    size = 1e-9 * (1 + np.abs(spans).max())
    bad = ((pts < spans[:, :1] - size) | (pts > spans[:, 1:] + size)).any(axis=0)
    ctx.evaluations += pts.shape[1]
    if bad.any():
        ctx.fail(f"{what}: the object reaches out of its bounding box", point=pts[:, np.nonzero(bad)[0][0]], spans=spans,
                 n_bad=int(bad.sum()))


def audit(ctx, node, full):
    for nd in (node.nodes() if full else [node]):
        rays = aimed(nd, ctx.thorough)
        L = oracle.Lines(nd.tree, rays)
        name = "part" if isinstance(nd.tree, oracle.Leaf) else nd.tree[0]
        on = L.finite & (L.change > 0) & ~L.tied
        t = np.where(on, L.times, 0).astype(float)
        pts = (rays[0, :3, None, :] + t * rays[1, :3, None, :])[:, on]
        if pts.shape[1]:
            inside_box(ctx, nd.real, pts, name)
        else:
            ctx.count("empty")
        hits, ids = nd.real.intersect(rays)
        scene.compare_hits(ctx, hits, ids, nd.tree, rays, nd.leaf_ids(), name, lines=L)


def small(ctx, spec, s):
    """everything s times as large: boxes and hits"""
    model, real = scene.build(spec), scene.build(scene.resized(spec, s))
    rays = aimed(model, ctx.thorough)
    for nd, md in zip(real.nodes(), model.nodes()):
        L = oracle.Lines(md.tree, rays)
        on = L.finite & (L.change > 0) & ~L.tied
        pts = (rays[0, :3, None, :] + np.where(on, L.times, 0).astype(float) * rays[1, :3, None, :])[:, on]
        if pts.shape[1]:
            spans = np.asarray(nd.real.bounding_box.axis_spans, dtype=float) / s
            bad = ((pts < spans[:, :1] - 1e-8) | (pts > spans[:, 1:] + 1e-8)).any(axis=0)
            ctx.evaluations += pts.shape[1]
            if bad.any():
                ctx.fail(f"at {s:g} times the size the object reaches out of its bounding box", n_bad=int(bad.sum()), spans=spans,
                         point=pts[:, np.nonzero(bad)[0][0]])
    scene.compare_resized(ctx, spec, s, rays, "csg", full=True)


def faraway(ctx, kind, outer, far, hair, target):
    """A nest of boxes at a distance (relative to which its parts are small), one of its nodes moved by a hair.  The parts are
    bricks, whose boxes are known exactly, and the lines run in the first bit behind the faces"""
    a = scene.build(leaf("cuboid", [[-1, -1, -1], [1, 1, 1]]))
    b = scene.build(leaf("cuboid", [[-0.5, -2, -0.5], [0.5, 2, 0.5]]))
    c = scene.build(leaf("cuboid", [[-0.7, -0.7, 0.3], [0.7, 0.7, 3]]))
    inner = join(kind, a, b)
    root = join(outer, inner, c)
    nodes = (root, inner, a, b, c)
    root.apply(["move", far, -far / 2, far / 3])
    step = hair * max(far, 1)
    for way in ((step, 0, 0), (0, step, 0), (0, 0, -step)):
        for nd in nodes:
            nd.real.bounding_box
        nodes[target].apply(["move", *way])
        for nd in nodes:
            rays = near_faces(nd, step)
            L = oracle.Lines(nd.tree, rays)
            on = L.finite & (L.change > 0) & ~L.tied
            pts = (rays[0, :3, None, :] + np.where(on, L.times, 0).astype(float) * rays[1, :3, None, :])[:, on]
            if pts.shape[1]:
                spans = np.asarray(nd.real.bounding_box.axis_spans, dtype=float)
                bad = ((pts < spans[:, :1] - 1e-14 * (1 + far)) | (pts > spans[:, 1:] + 1e-14 * (1 + far))).any(axis=0)
                ctx.evaluations += pts.shape[1]
                if bad.any():
                    ctx.fail("far away, and moved by a hair: the object reaches out of its bounding box", n_bad=int(bad.sum()), spans=spans,
                             point=pts[:, np.nonzero(bad)[0][0]])
            hits, ids = nd.real.intersect(rays)
            scene.compare_hits(ctx, hits, ids, nd.tree, rays, nd.leaf_ids(), "far away", lines=L, tol=1e-7 * (1 + far * 1e-6), risk_tol=1e-9)


def near_faces(node, step):
    """lines along the axes, in and out of the outermost layer of every brick"""
    out = []
    for l in oracle.leaves(node.tree):
        lo, hi = (np.asarray(oracle.mm(l.pose.m, np.append(np.sort(l.params, axis=0)[i], 1).astype(oracle.LD)[:, None]), dtype=float)[:3, 0] for i in (0, 1))
        for ax in range(3):
            u, v = (ax + 1) % 3, (ax + 2) % 3
            for side, f in itertools.product((0, 1), (-0.3, 0.3, 0.7)):
                p = lo + (hi - lo) * 0.37
                p[u] = (hi if side else lo)[u] + (-f if side else f) * min(step, 0.3)
                p[ax] = lo[ax] - 5
                out.append((p, np.eye(3)[ax]))
    rays = np.zeros((2, 4, len(out)))
    rays[0, :3], rays[1, :3], rays[0, 3] = np.array([o[0] for o in out]).T, np.array([o[1] for o in out]).T, 1
    return rays


def run(ctx):
    t = ctx.thorough
    # two parts: every operator, every pair, all sequences on all nodes with the joining at every point
    pairs = [(a, b) for a in LEAVES["A"] for b in LEAVES["B"] + LEAVES["C"]]
    ops = list(OPS) if t else ["move", "back", "turn", "grow"]
    for kind in ("intersect", "difference", "union"):
        for k, (a, b) in enumerate(pairs):
            depth = 2 if k % (6 if t else 4) == 0 else 1
            for seq in core.sequences([(n, o) for n in ("a", "b", "root") for o in ops], depth):
                if not t and len(seq) > 1 and (seq[0][1] == "turn" or seq[0] == seq[1]):
                    continue
                for at in range(len(seq) + 1):
                    if any(n == "root" for n, _ in seq[:at]):
                        break
                    data = {"kind": kind, "a": a, "b": b, "ops": [list(s) for s in seq], "joined_after": at}
                    if not ctx.selected(data):
                        continue
                    with ctx.case(data, steps=len(seq) + 1):
                        na, nb = scene.build(a), scene.build(b)
                        names = {"a": na, "b": nb}
                        for i, (n, o) in enumerate(seq):
                            if i == at:
                                names["root"] = join(kind, na, nb)
                            names[n].apply(OPS[o])
                        if "root" not in names:
                            names["root"] = join(kind, na, nb)
                        audit(ctx, names["root"], t or len(seq) < 2)
    # three parts in two levels, joined in stages
    for shape, k1, k2 in itertools.product(("(ab)c", "c(ab)"), scene.CSG, scene.CSG):
        trip = [(a, b, c) for a, b, c in zip(*LEAVES.values())]
        trip = list(itertools.product(*LEAVES.values()))[::5] if t else [trip[0]]
        for a, b, c in trip:
            nodes = ("a", "b", "c", "in", "root")
            for seq in core.sequences([(n, o) for n in nodes for o in (("move", "tip") if not t else ("move", "grow"))],
                                      2):
                for p1, p2 in itertools.combinations_with_replacement(range(len(seq) + 1), 2):
                    if any(n == "in" for n, _ in seq[:p1]) or any(n == "root" for n, _ in seq[:p2]):
                        continue
                    if not t and len(seq) == 2 and (p1, p2) not in ((0, 0), (1, 1), (0, 1)):
                        continue
                    data = {"shape": shape, "kinds": [k1, k2], "parts": [a, b, c], "ops": [list(s) for s in seq],
                            "joined": [p1, p2]}
                    if not ctx.selected(data):
                        continue
                    with ctx.case(data, steps=len(seq) + 2):
                        m = {x: scene.build(s) for x, s in zip("abc", (a, b, c))}
                        for i in range(len(seq) + 1):
                            if i == p1:
                                m["in"] = join(k1, m["a"], m["b"])
                            if i == p2:
                                m["root"] = join(k2, *((m["in"], m["c"]) if shape == "(ab)c" else (m["c"], m["in"])))
                            if i < len(seq):
                                m[seq[i][0]].apply(OPS[seq[i][1]])
                        audit(ctx, m["root"], t)
    # one array of rays, asked about again after every change: of the objects, and of the array itself
    for kind, (k, (a, b)), n1, n2 in itertools.product(scene.CSG, enumerate(pairs), ("a", "b", "root"), ("a", "b", "root", "rays")):
        if not t and (k + len(n1) + len(n2)) % 3:
            continue
        for o in ("move", "grow") if not t else ("move", "back", "tip", "grow", "shrink"):
            data = {"same array": kind, "a": a, "b": b, "changes": [n1, n2, "rays"], "op": o}
            if not ctx.selected(data):
                continue
            with ctx.case(data, steps=4):
                na, nb = scene.build(a), scene.build(b)
                names = {"a": na, "b": nb, "root": join(kind, na, nb)}
                first, later = aimed(names["root"], t), scene.build(LEAVES["B"][0])
                later.apply(OPS[o])
                rays = R.join(first, aimed(later, t))
                mine = rays.copy()
                for change in (None, n1, n2, "rays"):
                    if change == "rays":
                        rays[...] = np.roll(rays, 7, axis=2)
                        rays[0, :3] += np.array([[0.21], [-0.13], [0.08]])
                        mine = rays.copy()
                    elif change:
                        names[change].apply(OPS[o])
                    for nd in (names["root"], na, nb):
                        hits, ids = nd.real.intersect(rays)
                        scene.compare_hits(ctx, hits, ids, nd.tree, mine, nd.leaf_ids(), "one array of rays")
                ctx.expect(np.array_equal(rays, mine), "the caller's array of rays has been written to")
    # other units of length, and bodies of many parts
    from checks import csgspace
    for n, (kind, (k, (a, b))) in enumerate(itertools.product(scene.CSG, enumerate(pairs))):
        for s in (1e-12, 1e-9, 1e-6, 1e-5, 1e-3, 1e4, 1e6, 1e9) if t else (1e-9, 1e-6, 1e-4, 1e6):
            data = {"unit": s, "kind": kind, "a": a, "b": b}
            if (not t and n % 3) or not ctx.selected(data):
                continue
            with ctx.case(data):
                small(ctx, scene.csg(kind, dict(a, ops=a["ops"] + [OPS["tip"]]), b, [OPS["move"], OPS["turn"]]), s)
    for n in (5, 12, 33) if t else (5, 12):
        for name, spec in csgspace.many(n):
            data = {"many": name}
            if ctx.selected(data):
                with ctx.case(data):
                    small(ctx, dict(spec, ops=[OPS["turn"], OPS["back"]]), 1e-3)
    # a part that belongs to two composites
    for k1, k2, (a, b, c) in itertools.product(scene.CSG, scene.CSG, zip(*LEAVES.values())):
        for late, seq in itertools.product((0, 1), core.sequences([(n, o) for n in ("s", "u", "v", "one", "two") for o in ("move", "tip")], 2, 1)):
            data = {"shared": [k1, k2], "parts": [a, b, c], "late": late, "ops": [list(x) for x in seq]}
            if (late and seq[0][0] == "two") or (not t and len(seq) == 2 and sum(map(len, (k1, k2, seq[0][0], seq[1][1]))) % 3) or not ctx.selected(data):
                continue
            with ctx.case(data, steps=len(seq) + 2):
                m = {x: scene.build(y) for x, y in zip("suv", (a, b, c))}
                m["one"] = join(k1, m["s"], m["u"])
                for i, (n, o) in enumerate(seq):
                    if i == late:
                        m["two"] = join(k2, m["v"], m["s"])
                    m[n].apply(OPS[o])
                m.setdefault("two", None)
                for x in ("one", "two"):
                    if m[x] is not None:
                        audit(ctx, m[x], t)
    # a part that belongs to many composites, and a composite that does
    for kind, many, what in itertools.product(scene.CSG, (3, 5, 12, 20) if t else (5, 12), ("part", "composite")):
        for target, o in itertools.product(("shared", "other", "last"), ("move", "tip")):
            data = {"many owners": many, "kind": kind, "what": what, "target": target, "op": o}
            if not ctx.selected(data):
                continue
            with ctx.case(data, steps=many + 1):
                shared = scene.build(LEAVES["A"][0])
                if what == "composite":
                    shared = join("union", shared, scene.build(LEAVES["C"][2]))
                others = [scene.build(LEAVES["BC"[i % 2]][i % 3]) for i in range(many)]
                owners = [join(kind, *((shared, x) if i % 2 else (x, shared))) for i, x in enumerate(others)]
                for nd in owners:
                    nd.real.bounding_box
                for n in range(2):
                    {"shared": shared, "other": others[many // 2], "last": owners[-1]}[target].apply(OPS[o])
                    for nd in owners if target != "other" else owners[::2] + owners[many // 2:many // 2 + 1]:
                        audit(ctx, nd, False)
    # far away, and moved by a hair
    for kind, outer, far, hair in itertools.product(scene.CSG, scene.CSG, (0, 30, 1e3, 1e6) if t else (30, 1e4), (1e-7, 1e-5, 1e-3, 0.3) if t else (1e-6, 0.3)):
        for target in (0, 1, 2, 3, 4):
            data = {"far": far, "hair": hair, "kinds": [kind, outer], "node": target}
            if not ctx.selected(data):
                continue
            with ctx.case(data, steps=6):
                faraway(ctx, kind, outer, far, hair, target)
    # deep nests: a chain of composites, one part moved at every depth
    chain = [LEAVES["A"][0], LEAVES["B"][0], LEAVES["C"][1], LEAVES["A"][1], LEAVES["C"][0]]
    for kinds in itertools.product(scene.CSG, repeat=4) if t else itertools.product(("intersect", "difference"), ("union", "difference"),
                                                                  ("intersect", "union"), scene.CSG):
        for side in (0, 1):
            for target in range(9):
                for o in ("move", "back", "grow"):
                    data = {"chain": list(kinds), "side": side, "node": target, "op": o}
                    if not ctx.selected(data):
                        continue
                    with ctx.case(data, steps=5):
                        node = scene.build(chain[0])
                        every = [node]
                        for s, k in zip(chain[1:], kinds):
                            new = scene.build(s)
                            node = join(k, *((node, new) if side == 0 else (new, node)))
                            every += [new, node]
                        every[target].apply(OPS[o])
                        audit(ctx, node, False)


def join(kind, l, r):
    return scene.Node(scene.CSG[kind](l.real, r.real), (kind, l.tree, r.tree), (l, r))
