"""C35: light paths can be walked back.  Every interaction of every traced ray, and whole paths, against the reversed trace."""
import itertools
import numpy as np
import pyrayt
import pyrayt.components as pc
from pyrayt import materials as matl
from mc import lens, oracle, scene, trace
from mc.scene import leaf
from checks import scenes

LEVEL = "model_checking"
TECHNIQUE = "bounded exhaustive exploration of the implementation against a reference model"
RULE = ("state = scene of glass bodies, mirrors, sheets, lenses, nested objects and real components in a dark room, traced with a ray "
        "lattice of all wavelengths; after every interaction the ray is sent back from the middle of the next segment, and after every path "
        "from its end: it has to come back over the same points and surfaces, with the same directions and indices; "
        "non-trivial = an interaction that is walked back")
ASSUMPTIONS = ["segments whose recorded index is not that of the body they run in (two overlapping glasses, sheets of glass, sources in "
               "glass) and interactions at grazing incidence or within 1e-6 of an edge are counted as ambiguous"]
ROOM = 60.0
LIMIT = 7
COLS = trace.COLS
INF = float("inf")
WL = [0.4, 0.486, 0.55, 0.633, 0.75, 1.1]


def rows(df):
    return {c: df[c].to_numpy(dtype=float) for c in COLS}


def medium(nodes, points, wl):
    """(index of the glass at each point, is it defined)"""
    n = np.ones(points.shape[1])
    found = np.zeros(points.shape[1], dtype=int)
    for node in nodes:
        names = {l.material for l in oracle.leaves(node.tree)} - {None, "absorb", "mirror"}
        inside = oracle.evaluate(node.tree, {id(l): (l.depth(points) > 0) & l.solid for l in oracle.leaves(node.tree)})
        if len(names) == 1:
            found += inside
            n = np.where(inside, trace.glass_index(names.pop(), wl).astype(float), n)
        elif names:
            found += 2 * inside
    return n, found <= 1


def walk_back(ctx, nodes, reals, df, what):
    D = rows(df)
    order = np.lexsort((D["generation"], D["id"]))
    ids, gen = D["id"][order], D["generation"][order]
    p0, p1 = np.stack([D[c][order] for c in ("x0", "y0", "z0")]), np.stack([D[c][order] for c in ("x1", "y1", "z1")])
    d = np.stack([D[c][order] for c in ("x_tilt", "y_tilt", "z_tilt")])
    wl, idx, surf = D["wavelength"][order], D["index"][order], D["surface"][order]
    if not len(ids):
        return
    n_mid, ok = medium(nodes, (p0 + p1) / 2, wl)
    length = np.sqrt(((p1 - p0) ** 2).sum(0))
    fair = ok & (np.abs(n_mid - idx) < 1e-9) & (length > 1e-3)
    # pairs of consecutive segments
    pair = np.nonzero((ids[1:] == ids[:-1]) & (gen[1:] == gen[:-1] + 1))[0]
    a, b = pair, pair + 1
    nrm = np.where(np.abs(idx[b] - idx[a]) > 1e-12, idx[a] * d[:, a] - idx[b] * d[:, b], d[:, b] - d[:, a])
    size = np.sqrt((nrm ** 2).sum(0))
    nrm = nrm / np.where(size > 1e-9, size, 1)
    ca, cb = np.abs((nrm * d[:, a]).sum(0)), np.abs((nrm * d[:, b]).sum(0))
    good = fair[a] & fair[b] & (size > 1e-6) & (ca > 0.02) & (cb > 0.02)
    start = (p0[:, b] + p1[:, b]) / 2
    back = np.zeros((2, 4, len(pair)), dtype=oracle.LD)
    back[0, :3], back[0, 3], back[1, :3] = start, 1, -d[:, b]
    ps = trace.parts(nodes)
    near = trace.Nearest(ps, back, 1e-6)
    good &= ~near.amb
    again = back.copy()
    again[0, :3], again[1, :3] = p1[:, a] - 1e-5 * d[:, a], -d[:, a]
    good &= ~trace.Nearest(ps, again, 1e-6).amb
    ctx.ambiguous += int((~good).sum())
    a, b = a[good], b[good]
    if not len(a):
        return
    start, ca, cb = start[:, good], ca[good], cb[good]
    m = len(a)
    src = trace.Fixed(start.T, -d[:, b].T, wavelength=wl[b], index=idx[b])
    E = rows(pyrayt.RayTracer(src, reals, rays_per_source=m, generation_limit=2).trace())
    first, second = np.full(m, -1), np.full(m, -1)
    g0, g1 = E["generation"] == 0, E["generation"] == 1
    first[E["id"][g0].astype(int)] = np.nonzero(g0)[0]
    second[E["id"][g1].astype(int)] = np.nonzero(g1)[0]
    ctx.nontrivial += m
    ctx.count("interactions", m)
    ctx.count("reflected inside", int(((idx[a] == idx[b]) & (idx[a] > 1)).sum()))
    ctx.count("reflected", int(((idx[a] == idx[b]) & (idx[a] == 1)).sum()))
    ctx.count("refracted", int((idx[a] != idx[b]).sum()))

    def judge(bad, text):
        if bad.any():
            i = int(np.nonzero(bad)[0][0])
            ctx.fail(f"{what}: {text}", forth=[p0[:, a[i]], p1[:, a[i]], p1[:, b[i]]], indices=[idx[a[i]], idx[b[i]]], n_bad=int(bad.sum()),
                     back={c: [E[c][first[i]], E[c][second[i]]] for c in COLS}, surfaces=[surf[a[i]], surf[b[i]]])
        ctx.evaluations += m
        return not bad.any()

    if not judge(first < 0, "a ray that is sent back finds nothing where it came from") or \
            not judge(second < 0, "a ray that is sent back does not leave the surface again"):
        return
    e1 = np.stack([E[c][first] for c in ("x1", "y1", "z1")])
    scale = 1 + np.abs(p1[:, a]).max(0) + length[b]
    tol = 1e-7 * scale / np.minimum(ca, cb)
    judge((np.abs(e1 - p1[:, a]) > tol).any(0), "a ray that is sent back hits another point")
    judge(E["surface"][first] != surf[a], "a ray that is sent back hits another surface")
    e_dir = np.stack([E[c][second] for c in ("x_tilt", "y_tilt", "z_tilt")])
    judge((np.abs(e_dir + d[:, a]) > 1e-7 * scale / np.minimum(ca, cb) ** 2).any(0), "a ray that is sent back leaves in another direction")
    judge(np.abs(E["index"][second] - idx[a]) > 1e-9, "a ray that is sent back has another index")
    judge(E["wavelength"][second] != wl[b], "a ray that is sent back has another wavelength")
    # where it goes from there: the surface before, or past the source
    f1 = np.stack([E[c][second] for c in ("x1", "y1", "z1")])
    inner = gen[a] > 0
    run = np.sqrt(((f1 - p1[:, a]) ** 2).sum(0))
    judge(~inner & (run < length[a] * (1 - 1e-6)), "a ray that is sent back does not get past where it was emitted")
    steep = cosine_at_start(d, idx, a) > 0.02
    judge(inner & steep & (np.abs(run - length[a]) > 1e-4 * (1 + length[a]) / np.minimum(ca, cb)), "a ray that is sent back meets another surface on the way")


def cosine_at_start(d, idx, a):
    """cosine at which segment a left the surface it started on (1 for the first segment)"""
    prev = np.maximum(a - 1, 0)
    n = np.where(np.abs(idx[a] - idx[prev]) > 1e-12, idx[prev] * d[:, prev] - idx[a] * d[:, a], d[:, a] - d[:, prev])
    s = np.sqrt((n ** 2).sum(0))
    return np.abs((n * d[:, a]).sum(0)) / np.where(s > 1e-9, s, np.inf)


def whole_paths(ctx, nodes, reals, df, what):
    """the path that ended in the dark, walked back in one go"""
    D = rows(df)
    order = np.lexsort((D["generation"], D["id"]))
    room = reals[-1].get_id()
    groups = np.split(order, np.nonzero(np.diff(D["id"][order]))[0] + 1)
    paths = []
    for g in groups:
        if not 2 <= len(g) <= 5 or D["surface"][g[-1]] != room or D["generation"][g[0]] != 0:
            continue
        paths.append(g)
    if not paths:
        return
    last = np.array([g[-1] for g in paths])
    e = np.stack([D[c][last] for c in ("x0", "y0", "z0")])
    d = np.stack([D[c][last] for c in ("x_tilt", "y_tilt", "z_tilt")])
    src = trace.Fixed((e + 3.0 * d).T, -d.T, wavelength=D["wavelength"][last], index=D["index"][last])
    # and slightly displaced, to see how far errors grow
    side = np.cross(d.T, [0.36, 0.48, 0.8]) * 1e-6
    off = trace.Fixed((e + 3.0 * d).T + side, -d.T, wavelength=D["wavelength"][last], index=D["index"][last])
    E = [rows(pyrayt.RayTracer(s, reals, rays_per_source=len(paths), generation_limit=LIMIT).trace()) for s in (src, off)]
    by = [[np.nonzero(x["id"] == i)[0] for i in range(len(paths))] for x in E]
    for i, g in enumerate(paths):
        mids = (np.stack([D[c][g] for c in ("x0", "y0", "z0")]) + np.stack([D[c][g] for c in ("x1", "y1", "z1")])) / 2
        n, ok = medium(nodes, mids, D["wavelength"][g])
        r, s = (x[i][np.argsort(E[k]["generation"][x[i]])] for k, x in enumerate(by))
        if not ok.all() or np.abs(n - D["index"][g]).max() > 1e-9 or len(r) < len(g) or len(r) != len(s):
            ctx.ambiguous += 1
            continue
        want = np.stack([D[c][g[:-1]] for c in ("x1", "y1", "z1")])[:, ::-1]
        k = len(g) - 1
        got, far = (np.stack([x[c][q[:k]] for c in ("x1", "y1", "z1")]) for x, q in ((E[0], r), (E[1], s)))
        growth = np.abs(got - far).max() / 1e-6
        if growth > 1e3 or (E[0]["surface"][r[:k]] != E[1]["surface"][s[:k]]).any():
            ctx.ambiguous += 1
            continue
        ctx.nontrivial += 1
        ctx.count("whole paths")
        good = np.abs(got - want).max() <= 1e-6 * (1 + growth)
        ctx.expect(good, f"{what}: a whole path walked back takes another way", want=want.T, got=got.T)
        ctx.expect(np.array_equal(E[0]["surface"][r[:k]], D["surface"][g[:-1]][::-1]), f"{what}: a whole path walked back meets other surfaces")


def study(ctx, nodes, o, d, what):
    nodes = list(nodes) + [scene.build(leaf("sphere", [ROOM], mat="absorb"))]       # a dark room around them
    reals = [n.real for n in nodes]
    wl = np.array(WL)[np.arange(len(o)) % len(WL)]
    src = trace.Fixed(o, d, wavelength=wl)
    df = pyrayt.RayTracer(src, reals, rays_per_source=len(src), generation_limit=LIMIT).trace()
    walk_back(ctx, nodes, reals, df, what)
    whole_paths(ctx, nodes, reals, df, what)


def node(real, tree, *ops):
    n = scene.Node(real, tree)
    for op in ops:
        n.apply(list(op))
    return n


def bench(name):
    """rows of lenses, mirrors and prisms as the library makes them"""
    G = matl.glass
    L = lambda r1, r2, t, a, m, *ops: node(pc.thick_lens(r1, r2, t, aperture=a, material=G[m]), lens.lens(r1, r2, t, a, m), *ops)
    bi = lambda r1, r2, t, a, m, *ops: node(pc.biconvex_lens(r1, r2, t, aperture=a, material=G[m]), lens.lens(r1, -r2, t, a, m), *ops)
    pr = lambda s, w, m, *ops: node(pc.equilateral_prism(s, w, material=G[m]), lens.prism(s, w, m), *ops)
    par = lambda f, t, a, off, *ops: node(pc.parabolic_mirror(f, t, aperture=a, off_axis=off), lens.parabolic(f, t, a, off, "mirror"), *ops)
    sph = lambda r, t, a, *ops: node(pc.spherical_mirror(r, t, aperture=a), lens.spherical(r, t, a, (0, 0), "mirror"), *ops)
    flat = lambda t, a, *ops: node(pc.plane_mirror(t, aperture=a), lens.plane(t, a, (0, 0), "mirror"), *ops)
    turn = lambda ax, deg: (ax, deg)
    at = lambda x, y=0, z=0: ("move", x, y, z)
    return {
        "biconvex": lambda: [bi(3, 4, 0.5, 1.6, "BK7")],
        "plano": lambda: [node(pc.plano_convex_lens(2.5, 0.6, aperture=1.8, material=G["SF5"]), lens.lens(2.5, INF, 0.6, 1.8, "SF5"))],
        "meniscus": lambda: [L(3, 5, 0.4, (1.5, 2), "BK7", turn("rz", 12))],
        "biconcave": lambda: [L(-2, 3, 0.3, 1.6, "SF2", turn("ry", -8))],
        "doublet": lambda: [bi(3, 3, 0.5, 1.6, "BK7", at(-0.6)), L(-4, 4, 0.3, 1.7, "SF5", at(0.4))],
        "triplet": lambda: [bi(4, 4, 0.4, 1.6, "BK7", at(-1)), L(-3, 3, 0.2, 1.5, "SF5"), bi(4, 4, 0.4, 1.6, "BK7", at(1))],
        "ball-pair": lambda: [bi(1, 1, 1.2, 0.9, "ideal", at(-0.8)), bi(1, 1, 1.2, 0.9, "ideal", at(0.8))],
        "prism": lambda: [pr(1.5, 1.2, "SF5", turn("rz", 9))],
        "two-prisms": lambda: [pr(1.5, 1.2, "SF5", at(-1)), pr(1.4, 1.2, "BK7", turn("ry", 180), at(1))],
        "telescope": lambda: [par(2, 0.2, 2.4, (0, 0), at(2)), sph(-5, 0.1, 0.6, at(-0.5))],
        "off-axis": lambda: [par(2, 0.2, 1.4, (1, 0.2), at(1)), bi(4, 4, 0.4, 1.5, "BK7", at(-0.8))],
        "folded": lambda: [flat(0.1, (2, 2), turn("rz", 40), at(1)), bi(4, 4, 0.4, 1.5, "BK7", at(-0.8)), pr(1, 1.2, "SF2", at(0, -1.5))],
        "cavity": lambda: [sph(6, 0.1, 2, at(-1.5)), sph(-6, 0.1, 2, at(1.5))],
        "filled-cavity": lambda: [sph(6, 0.1, 2, at(-1.5)), L(5, -5, 0.5, 1.5, "BK7"), sph(-6, 0.1, 2, at(1.5))],
    }[name]()


BENCHES = ("biconvex", "plano", "meniscus", "biconcave", "doublet", "triplet", "ball-pair", "prism", "two-prisms", "telescope", "off-axis", "folded",
           "cavity", "filled-cavity")
TURNS = ([], [("rz", 30)], [("ry", 75), ("rx", 40), ("move", 0.3, -0.2, 0.1)])


def run(ctx):
    o, d = scenes.lattice(ctx.thorough)
    # the faces of a lens and the cylinder it is cut from touch at the vertex: not along the axis
    off = np.abs(o[:, 1:]).max(1) + np.abs(d[:, 1:]).max(1) > 1e-3
    for name, k in itertools.product(BENCHES, range(len(TURNS))):
        data = {"bench": name, "turn": k}
        if ctx.selected(data):
            with ctx.case(data, steps=2):
                nodes = bench(name)
                for n in nodes:
                    for op in TURNS[k]:
                        n.apply(list(op))
                study(ctx, nodes, o[off], d[off], name)
    for label, items in scenes.families(ctx.thorough):
        # the path through a union of two glasses or a sheet of glass depends on the side it is entered from
        if any(n in ("snowman", "sheet-glass") for n, _ in items):
            continue
        data = {"scene": label}
        if ctx.selected(data):
            with ctx.case(data, steps=2):
                study(ctx, scenes.build_scene(items), o, d, "scene")
