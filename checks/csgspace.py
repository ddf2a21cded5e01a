"""The space of CSG trees shared by C12, C13 and C14."""
import itertools
import numpy as np
from mc import core, rays as R
from mc.scene import leaf, csg

NAMES = {
    "ball": leaf("sphere", [1]),
    "ball2": leaf("sphere", [0.9], [["move", 0.7, 0.21, -0.13]]),
    "box": leaf("cuboid", [[-0.8, -0.9, -0.7], [0.8, 0.6, 0.9]]),
    "rod": leaf("cylinder", [0.45, -1.6, 1.3], [["rx", 35], ["move", 0.1, -0.2, 0.05]]),
    "bowl": leaf("paraboloid", [0.3, 1.1], [["ry", 100], ["move", -0.5, 0.1, 0.2]]),
    "dish": leaf("paraboloid", [0.9, 0.4], [["rx", 15], ["move", 0.1, -0.1, -0.15]]),
    "sheet": leaf("plane", [1.7, 1.9], [["ry", 70], ["move", 0.15, 0.1, -0.1]]),
    "far": leaf("sphere", [0.6], [["scale", 1, 1.5, 0.7], ["move", 2.6, 0.3, -0.2]]),
    "tiny": leaf("cuboid", [[-0.2, -0.15, -0.1], [0.2, 0.25, 0.3]], [["rz", 20]]),
    "slab": leaf("cuboid", [[-0.8, -1.4, -0.3], [0.8, 1.4, 0.25]]),          # shares two face planes with box
    "next": leaf("cuboid", [[0.8, -0.9, -0.7], [1.5, 0.6, 0.9]]),            # touches box face to face
}
OPS = ("union", "intersect", "difference")


def trees(tier_thorough):
    """(name, spec), simplest first"""
    names = list(NAMES)
    for a, b in itertools.product(names, repeat=2):
        for op in OPS:
            yield f"{op}({a},{b})", csg(op, NAMES[a], NAMES[b])
    three = names if tier_thorough else ["ball", "ball2", "box", "rod", "far"]
    for a, b, c in itertools.product(three, repeat=3):
        if len({a, b, c}) < 3:
            continue
        for o1, o2 in itertools.product(OPS, repeat=2):
            yield f"{o1}({o2}({a},{b}),{c})", csg(o1, csg(o2, NAMES[a], NAMES[b]), NAMES[c])
            yield f"{o1}({a},{o2}({b},{c}))", csg(o1, NAMES[a], csg(o2, NAMES[b], NAMES[c]))
    # the remaining leaves in nested positions
    rest = ["sheet", "bowl", "tiny", "slab", "next"]
    if not tier_thorough:
        for a in rest:
            for o1, o2 in itertools.product(OPS, repeat=2):
                yield f"{o1}({o2}({a},box),ball2)", csg(o1, csg(o2, NAMES[a], NAMES["box"]), NAMES["ball2"])
                yield f"{o1}(ball,{o2}(box,{a}))", csg(o1, NAMES["ball"], csg(o2, NAMES["box"], NAMES[a]))
    four = list(itertools.permutations(["ball", "ball2", "box", "rod"])) if tier_thorough else [
        ("ball", "box", "rod", "ball2"), ("box", "far", "ball2", "rod")]
    for a, b, c, d in four:
        A, B, C, D = (NAMES[x] for x in (a, b, c, d))
        for o1, o2, o3 in itertools.product(OPS, repeat=3):
            yield f"{o1}({o2}({a},{b}),{o3}({c},{d}))", csg(o1, csg(o2, A, B), csg(o3, C, D))
            yield f"{o1}({o2}({o3}({a},{b}),{c}),{d})", csg(o1, csg(o2, csg(o3, A, B), C), D)
            yield f"{o1}({a},{o2}({b},{o3}({c},{d})))", csg(o1, A, csg(o2, B, csg(o3, C, D)))


    for n in (5, 7, 12, 20) if not tier_thorough else (5, 6, 7, 8, 9, 12, 16, 20, 33):
        yield from many(n)


def many(n):
    """bodies of many parts: a row of beads, a plate with holes, an onion, a comb; put together from the left, the right and in pairs"""
    from functools import reduce
    bead = lambda i: leaf("sphere", [0.3], [["move", -1.5 + 3.0 * i / n, 0.2 * (i % 3), 0.1 * (i % 2)]])
    hole = lambda i: leaf("cylinder", [0.4 / np.sqrt(n), -1, 1], [["move", -1 + 2.0 * ((i * 5) % n) / n, -0.6 + 0.37 * (i % 4), 0]])
    shell = lambda i: leaf("sphere", [1.3 * (n - i) / n])
    tooth = lambda i: leaf("cuboid", [[-1.5 + 3.0 * i / n, -0.5, -0.4], [-1.5 + (3.0 * i + 1) / n, 0.5 + 0.1 * (i % 2), 0.4]])
    plate = leaf("cuboid", [[-1.4, -0.9, -0.2], [1.4, 0.9, 0.25]])

    def pairs(op, parts):
        while len(parts) > 1:
            parts = [csg(op, *parts[i:i + 2]) if i + 1 < len(parts) else parts[i] for i in range(0, len(parts), 2)]
        return parts[0]

    row = [(bead if i % 2 else tooth)(i) for i in range(n)]
    yield f"{n} beads and teeth, left", reduce(lambda a, b: csg("union", a, b), row)
    yield f"{n} beads and teeth, right", reduce(lambda a, b: csg("union", b, a), row[::-1])
    yield f"{n} beads and teeth, in pairs", pairs("union", row)
    yield f"plate with {n} holes, one by one", reduce(lambda a, b: csg("difference", a, b), [plate] + [hole(i) for i in range(n)])
    yield f"plate with {n} holes, at once", csg("difference", plate, pairs("union", [hole(i) for i in range(n)]))
    yield f"onion of {n} shells", reduce(lambda a, b: csg("difference", b, a), [shell(i) for i in range(n)][::-1])
    yield f"plate within {n} balls", reduce(lambda a, b: csg("intersect", a, b),
                                           [plate] + [leaf("sphere", [1.5], [["move", 0.3 * np.cos(6.3 * i / n), 0.3 * np.sin(6.3 * i / n), 0.05 * (i % 3)]])
                                                      for i in range(n)])


_cache = {}


def lattice(dense):
    """rays through the region all leaves live in"""
    if dense not in _cache:
        f = [-1.31, -0.62, -0.11, 0.38, 0.77, 1.23] if dense else [-1.07, -0.37, 0.29, 0.83]
        targets = R.grid(f) * [1.2, 0.8, 0.8]
        o = [(-4.1, 0.33, 0.27), (3.7, -2.9, 1.1), (0.31, 5.2, -0.7), (0.4, 0.6, -6.3), (0.13, -0.21, 0.17),
             (2.55, 0.35, -0.15)]
        if dense:
            o += [(-2.2, -2.5, -2.7), (0.9, 3.1, 3.3), (-0.6, 0.2, -0.4)]
        aimed = R.aim(o, targets)
        par = R.cross(core.sub_grid(list(targets), 45 if dense else 16), R.AXES)
        near = R.cross([(0.05, -0.1, 0.1), (-0.4, 0.2, -3)], R.near_axis(R.TILTS if dense else R.TILTS[2::4]))
        axis = R.cross([(0, 0, 0), (-3, 0, 0), (0, -3, 0), (0, 0, 3)], R.AXES)
        _cache[dense] = R.join(aimed, par, near, axis)
    return _cache[dense]
