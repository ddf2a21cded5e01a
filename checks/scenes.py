"""The scene families shared by the trace checks."""
import itertools
import numpy as np
from mc import core, oracle, rays as R, trace
from mc.scene import leaf, csg, build


def lib():
    ball = lambda m, r=1.0: leaf("sphere", [r], mat=m)
    box = lambda m, ops=(): leaf("cuboid", [[-0.8, -0.9, -0.7], [0.8, 0.6, 0.9]], ops, m)
    rod = lambda m, ops=(): leaf("cylinder", [0.5, -1.2, 1.1], ops, m)
    cup = lambda m, ops=(): leaf("paraboloid", [0.4, 0.9], ops, m)
    sheet = lambda m: leaf("plane", [2.1, 1.7], [["ry", 80], ["rz", 10]], m)
    return {
        "ball-glass": ball("n1.5"),
        "ball-mirror": ball("mirror"),
        "box-BK7": box("BK7", [["rz", 20], ["ry", 15]]),
        "box-mirror": box("mirror", [["ry", 30]]),
        "rod-SF5": rod("SF5", [["rx", 60], ["scale", 1, 1.5, 0.8]]),
        "rod-absorb": rod("absorb", [["ry", 90]]),
        "bowl-mirror": cup("mirror", [["ry", -80], ["move", 0.3, 0, 0]]),
        "bowl-glass": cup("n1.9", [["ry", 95], ["scale", 1.4, 0.8, 1.1]]),
        "sheet-absorb": sheet("absorb"),
        "sheet-mirror": sheet("mirror"),
        "sheet-glass": sheet("n1.3"),
        "egg-glass": leaf("sphere", [0.7], [["scale", 0.6, 1.7, 1.2], ["rz", 33]], "n0.7"),
        "lens": csg("intersect", leaf("sphere", [2], [["move", 1.6, 0, 0]], "BK7"),
                    leaf("sphere", [2], [["move", -1.6, 0, 0]], "BK7")),
        "hollow": csg("difference", ball("n1.5"), leaf("sphere", [0.6], [["move", 0.1, 0.05, 0]], "n1.5")),
        "cave": csg("difference", box("absorb"), leaf("sphere", [0.75], [["move", -0.7, 0, 0.1]], "mirror")),
        "pipe": csg("difference", rod("mirror", [["ry", 90]]), leaf("cylinder", [0.35, -2, 2], [["ry", 90]], "mirror")),
        "snowman": csg("union", ball("n1.5", 0.8), leaf("sphere", [0.55], [["move", 0.3, 0.8, 0.1]], "SF2")),
        "two-drops": csg("union", leaf("sphere", [0.45], [["move", 0, 0.8, 0]], "n1.5"),
                         leaf("cuboid", [[-0.4, -0.3, -0.4], [0.3, 0.4, 0.5]], [["move", 0, -0.7, 0.1], ["rx", 25]], "mirror")),
        "holed-sheet": csg("difference", leaf("plane", [2.2, 2.2], [["ry", 90]], "absorb"),
                           leaf("cylinder", [0.5, -1, 1], [["ry", 90], ["scale", 1, 1.4, 1]], "absorb")),
        "onion": csg("difference", csg("difference", ball("n1.5"), leaf("sphere", [0.7], [], "n1.5")),
                     leaf("cuboid", [[0, -2, -2], [2, 2, 2]], [["rz", 10]], "mirror")),
        "pea": csg("union", csg("difference", ball("n1.4"), leaf("sphere", [0.6], [], "n1.4")),
                   leaf("sphere", [0.3], [["move", 0.1, 0.1, 0]], "mirror")),
        "carved": csg("difference", leaf("cuboid", [[-1, -0.8, -0.8], [0.6, 0.8, 0.8]], [], "SF2"),
                      csg("difference", leaf("sphere", [0.7], [["move", -1, 0.1, 0]], "SF2"),
                          leaf("cylinder", [0.25, -1, 1], [["ry", 90], ["move", -0.6, 0.1, 0]], "mirror"))),
    }


LIB = lib()
NAMES = list(LIB)
POSES = {
    "centre": [],
    "right": [["rz", -40], ["move", 2.6, 0.4, -0.2]],
    "left": [["ry", 130], ["move", -2.7, -0.3, 0.3]],
    "above": [["rx", 70], ["scale", 1.2, 0.9, 1.1], ["move", 0.3, 2.6, 0.4]],
    "front": [["ry", 25], ["move", -0.2, 0.35, -2.5]],
    "large": [["scale", 2.1, 2.3, 2.2], ["rz", 15], ["move", 0.2, 0.1, -0.1]],
    "small": [["scale", 0.35, 0.3, 0.4], ["ry", 50], ["move", 0.15, 0.1, 0.05]],
}


def placed(name, pose):
    s = LIB[name]
    return dict(s, ops=list(s.get("ops", [])) + POSES[pose])


_lat = {}


def lattice(dense=False):
    """(origins, directions): aimed, axis-parallel and nearly axis-parallel rays through the region of the scenes"""
    if dense not in _lat:
        f = [-0.93, -0.34, 0.27, 0.81] if not dense else [-1.2, -0.71, -0.21, 0.29, 0.77, 1.13]
        targets = R.grid(f) * [1.0, 0.9, 0.8]
        o = [(-6.1, 0.33, 0.27), (3.9, -4.9, 1.1), (0.31, 5.2, -3.7), (0.13, -0.21, 0.17), (5.3, 0.4, -0.2)]
        if dense:
            o += [(-2.2, -4.5, -2.7), (0.4, 0.1, 6.3), (-0.6, 0.2, -0.4), (1.2, 0.9, 0.2)]
        a = R.aim(o, targets)
        p = R.cross(core.sub_grid(list(targets), 8 if not dense else 30), R.AXES)
        p[0, :3] -= 4.3 * p[1, :3]
        q = R.cross([(-4.2, 0.11, 0.07), (4.1, -0.2, 0.13)], R.near_axis((1e-10, 1e-6, 1e-3), ((0.6, 0.8),)))
        z = R.cross([(-5.0, 0, 0), (0.2, 0, 6.0)], R.AXES)
        b = R.join(a, p, q, z)
        _lat[dense] = (b[0, :3].T.copy(), b[1, :3].T.copy())
    return _lat[dense]


def families(thorough):
    """(label, [(component, pose), ...]), fewest components first"""
    for n in NAMES:
        for p in (("centre", "right", "above") if not thorough else POSES):
            yield f"1:{n}@{p}", [(n, p)]
    pairs = [("centre", "right"), ("left", "centre"), ("large", "small")]
    if thorough:
        pairs += [("small", "large"), ("above", "front"), ("right", "front")]
    names = NAMES
    for a, b in itertools.product(names, repeat=2):
        for k, (pa, pb) in enumerate(pairs):
            if thorough or (names.index(a) + names.index(b)) % len(pairs) == k:
                yield f"2:{a}@{pa}+{b}@{pb}", [(a, pa), (b, pb)]
    three = ["ball-glass", "sheet-mirror", "lens", "cave", "holed-sheet", "bowl-mirror", "onion"]
    for t in itertools.permutations(three, 3):
        if thorough or sum(three.index(x) * (3 ** i) for i, x in enumerate(t)) % 4 == 0:
            yield "3:" + "+".join(t), list(zip(t, ("left", "centre", "right")))
    four = ["box-BK7", "sheet-glass", "snowman", "two-drops", "pipe"]
    for t in itertools.permutations(four, 4):
        if thorough or t[0] < t[1]:
            yield "4:" + "+".join(t), list(zip(t, ("left", "large", "right", "above")))


def build_scene(items):
    return [build(placed(n, p)) for n, p in items]


def bundles(dense=False):
    """(name, spec, points, normals): a few points close together on a smooth part of surfaces of all sizes"""
    forms = {"sphere": lambda s: ("sphere", [s]), "cylinder": lambda s: ("cylinder", [s, -2 * s, 3 * s]),
             "paraboloid": lambda s: ("paraboloid", [s / 2, s]), "plane": lambda s: ("plane", [3 * s, 2 * s]),
             "cuboid": lambda s: ("cuboid", [[-s, -2 * s, -s], [s, s, 1.5 * s]])}
    poses = {"still": [], "turned": [["rx", 33], ["rz", -70], ["move", 1, -2, 0.5]],
             "scaled": [["scale", 2, 0.5, 1.3], ["ry", 50]]}
    for kind, form in forms.items():
        for size in (0.01, 1, 50, 2000) if not dense else (1e-3, 0.01, 0.3, 1, 7, 50, 2000, 1e5):
            for width in (1e-7, 1e-4, 1e-2, 0.1):
                for p, ops in poses.items():
                    for m in (2, 3, 8):
                        k = np.arange(m)
                        a, b = 0.4 + width * k / m, 0.7 - width * (k % 3) / m
                        at = {"sphere": lambda: (np.cos(a) * np.sin(b), np.sin(a) * np.sin(b), np.cos(b)),
                              "cylinder": lambda: (np.cos(a), np.sin(a), b),
                              "paraboloid": lambda: (a, b, (a ** 2 + b ** 2) / 2),
                              "plane": lambda: (a, b, 0 * a), "cuboid": lambda: (a, b, 1.5 + 0 * a)}[kind]()
                        nrm = {"sphere": at, "cylinder": (np.cos(a), np.sin(a), 0 * a), "paraboloid": (at[0], at[1], -1 + 0 * a),
                               "plane": (0 * a, 0 * a, 1 + 0 * a), "cuboid": (0 * a, 0 * a, 1 + 0 * a)}[kind]
                        spec = leaf(*form(size), ops=ops)
                        pose = oracle.Pose(ops)
                        pts = oracle.mm(pose.m, np.vstack((np.array(at) * size, np.ones(m))).astype(oracle.LD))
                        nn = oracle.mm(pose.i[:3, :3].T, np.array(nrm).astype(oracle.LD))
                        nn = nn / np.sqrt((nn ** 2).sum(0))
                        yield f"{kind} {size} {width} {p} {m}", spec, pts.astype(float), nn
