"""C30: ray sets.  Every history of writes and derivations on a pool of sets, against a heap of cells."""
import copy
import pickle
import numpy as np
from pyrayt import RaySet
from mc import core

LEVEL = "model_checking"
TECHNIQUE = "bounded exhaustive exploration of operation histories of the implementation against a reference model"
RULE = ("state = history of field writes (whole field, one value, one element, slice, block) and derivations (slices, column selections, "
        "masks, copies, concatenations) over a pool of ray sets; after every history all fields of all sets are read and compared with a "
        "model in which a set is a table of references to cells; every write uses numbers not used before; non-trivial = a field read")
ASSUMPTIONS = ["slices of a set share its memory and selections by index or mask copy it, as for every numpy array"]

FIELDS = ("generation", "intensity", "wavelength", "index", "id")


class World:
    """the sets under test and, for each, a 13xn table of cell numbers"""

    def __init__(self):
        self.sets, self.cells, self.heap, self.next = [], [], [], 1000.0

    def new(self, real, values):
        values = np.asarray(values, dtype=float)
        base = len(self.heap)
        self.heap.extend(values.ravel().tolist())
        self.sets.append(real)
        self.cells.append(np.arange(base, base + values.size).reshape(values.shape))

    def alias(self, real, cells):
        self.sets.append(real)
        self.cells.append(cells)

    def value(self, k):
        c = self.cells[k]
        return np.array([self.heap[i] for i in c.ravel()], dtype=float).reshape(c.shape)

    def fresh(self, shape):
        n = int(np.prod(shape))
        # all different, of any size, and none of them a round number
        out = (self.next + np.arange(n) * 0.5 + 1 / 3) * np.array([1, 1e-9, 3e11, -1e-3, 1e40])[(int(self.next) + np.arange(n)) % 5]
        self.next += n
        return out.reshape(shape)

    def store(self, cells, values):
        for i, v in zip(np.ravel(cells), np.ravel(np.broadcast_to(values, np.shape(cells)))):
            self.heap[i] = float(v)


def defaults(n):
    v = np.zeros((13, n))
    v[3] = 1
    v[8:, :] = np.array([0, 100, 0.633, 1, 0])[:, None]
    v[12] = np.arange(n)
    return v


# -- writes: (name, function(world, set number)) ---------------------------------------------------------------
def write_field(f, form):
    row = 8 + FIELDS.index(f)

    def op(w, k):
        s, c = w.sets[k], w.cells[k][row]
        if form == "array":
            v = w.fresh(c.shape)
            setattr(s, f, v)
            w.store(c, v)
            v += 5000           # the set must not keep the caller's array
        elif form == "value":
            v = w.fresh(())
            setattr(s, f, float(v))
            w.store(c, v)
        elif form == "element":
            v = w.fresh(())
            getattr(s, f)[-1] = v
            w.store(c[-1:], v)
        elif form == "in place":
            a = getattr(s, f)
            v = w.fresh(c.shape)
            a[...] = v
            w.store(c, v)
    return f"{f} {form}", op


def write_rays(w, k):
    v = w.fresh((2, 4, w.cells[k].shape[1]))
    w.sets[k].rays = v
    w.store(w.cells[k][:8], v.reshape(8, -1))
    v += 5000


def write_rays_f(w, k):
    v = w.fresh((2, 4, w.cells[k].shape[1]))
    w.sets[k].rays = np.asfortranarray(v)
    w.store(w.cells[k][:8], v.reshape(8, -1))


def write_block(i):
    def op(w, k):
        c = w.cells[k][4 * i:4 * i + 4]
        v = w.fresh(c.shape)
        w.sets[k].rays[i] = v
        w.store(c, v)
    return op


def write_component(w, k):
    c = w.cells[k][4 + 2]
    v = w.fresh(c.shape)
    w.sets[k].rays[1, 2] = v
    w.store(c, v)


def write_ray(w, k):
    c = w.cells[k][:8, 0]
    v = w.fresh((2, 4))
    w.sets[k].rays[..., 0] = v
    w.store(c, v.ravel())


def write_metadata(w, k):
    c = w.cells[k][8:]
    v = w.fresh(c.shape)
    w.sets[k].metadata = v
    w.store(c, v)


def write_metadata_column(w, k):
    c = w.cells[k][8:, -1]
    v = w.fresh((5,))
    w.sets[k].metadata[:, -1] = v
    w.store(c, v)


def bump(w, k):
    """an augmented assignment through the property, as the tracer does"""
    s, c = w.sets[k], w.cells[k][8]
    s.generation += 3
    w.store(c, [w.heap[i] + 3 for i in c.ravel()])


WRITES = [write_field(f, form) for f in FIELDS for form in ("array", "value", "element", "in place")] + [
    ("rays", write_rays), ("rays in column order", write_rays_f), ("positions", write_block(0)), ("directions", write_block(1)),
    ("one component", write_component), ("one ray", write_ray), ("metadata", write_metadata),
    ("one metadata column", write_metadata_column), ("bump", bump)]


# -- derivations -----------------------------------------------------------------------------------------------
def shared(name, sel):
    def op(w, k):
        w.alias(w.sets[k][:, sel], w.cells[k][:, sel])
    return name, op


def copied(name, make, pick=lambda v: v):
    def op(w, k):
        real = make(w.sets[k])
        w.new(real, pick(w.value(k)))
    return name, op


def joined(w, k):
    parts = [w.sets[k], w.sets[(k + 1) % len(w.sets)]]
    values = np.hstack([w.value(k), w.value((k + 1) % len(w.sets))])
    w.new(np.hstack(parts).view(RaySet), values)


def joined3(w, k):
    w.new(np.concatenate([w.sets[k], RaySet(0), w.sets[0]], axis=1).view(RaySet), np.hstack([w.value(k), w.value(0)]))


def fresh_set(w, k):
    w.new(RaySet(2), defaults(2))


def mask(n):
    return np.arange(n) % 2 == 0


DERIVE = [shared("front", slice(None, -1)), shared("back", slice(1, None)), shared("reversed", slice(None, None, -1)),
          shared("every second", slice(None, None, 2)),
          copied("copy", lambda s: s.copy()), copied("deepcopy", copy.deepcopy), copied("pickle", lambda s: pickle.loads(pickle.dumps(s))),
          copied("selection", lambda s: s[:, [s.shape[1] - 1, 0, 0]], lambda v: v[:, [v.shape[1] - 1, 0, 0]]),
          copied("mask", lambda s: s[:, mask(s.shape[1])], lambda v: v[:, mask(v.shape[1])]),
          copied("mask of its own field", lambda s: s[:, s.wavelength == s.wavelength[0]], lambda v: v[:, v[10] == v[10, 0]]),
          ("joined", joined), ("joined with an empty one", joined3), ("new set", fresh_set)]


def judge(ctx, w):
    for k, s in enumerate(w.sets):
        want = w.value(k)
        n = want.shape[1]
        if not ctx.expect(isinstance(s, RaySet) and s.n_rays == n, "a set is no set or has lost rays", set=k, got=np.shape(s)):
            return False
        r, m = np.asarray(s.rays), np.asarray(s.metadata)
        if not ctx.expect(r.shape == (2, 4, n) and m.shape == (5, n), "wrong shape of the rays or metadata", set=k, got=(r.shape, m.shape)):
            return False
        ok = np.array_equal(r.reshape(8, -1), want[:8])
        if not ctx.expect(ok, "positions and directions differ", n=8 * n, set=k, got=r.reshape(8, -1), want=want[:8]):
            return False
        for i, f in enumerate(FIELDS):
            got = np.asarray(getattr(s, f))
            ok = np.array_equal(got, want[8 + i]) and np.array_equal(m[i], want[8 + i])
            if not ctx.expect(ok, f"{f} differs", n=n, set=k, got=got, want=want[8 + i]):
                return False
        ctx.nontrivial += 13 * n
    return True


OPS = dict(WRITES + DERIVE)


def play(ctx, n, history):
    w = World()
    w.new(RaySet(n), defaults(n))
    for name, k in history:
        if w.cells[k].shape[1] == 0 and name not in ("joined", "joined with an empty one", "new set", "copy", "rays", "metadata"):
            return          # most operations need a ray
        OPS[name](w, k)
        if name in dict(DERIVE):
            ctx.count("derivation")
        else:
            ctx.count("write")
    judge(ctx, w)           # what shorter histories show was judged in their own cases


def histories(names, depth):
    """every history; the pool grows with every derivation, and each operation picks any set of the pool"""
    derive = dict(DERIVE)

    def rec(prefix, pool, left):
        yield prefix
        if left:
            for name in names:
                for k in range(pool):
                    yield from rec(prefix + [(name, k)], pool + (name in derive), left - 1)
    return rec([], 1, depth)


def run(ctx):
    t = ctx.thorough
    for n in (0, 1, 2, 3, 5, 100, 1001, 65537, 200001):
        data = {"new": n}
        if ctx.selected(data):
            with ctx.case(data):
                w = World()
                w.new(RaySet(n), defaults(n))
                judge(ctx, w)
                ctx.expect(tuple(RaySet.fields) == FIELDS and tuple(w.sets[0].fields) == FIELDS, "the list of fields changed", got=RaySet.fields)
    every = [x for x, _ in WRITES] + [x for x, _ in DERIVE]
    for n, names, depth in ((1, every, 2), (2, every, 3 if t else 2), (3, every, 3),
                            (2, ["id array", "wavelength value", "intensity element", "rays", "positions", "metadata", "front", "reversed", "copy",
                                 "selection", "joined"], 5 if t else 4)):
        for h in histories(names, depth):
            data = {"n": n, "history": h, "depth": depth}
            if ctx.selected(data):
                with ctx.case(data, steps=len(h), sample_every=9973):
                    play(ctx, n, h)
    # large sets
    for n, name in core.product((255, 256, 257, 1024, 1025, 65535, 65536, 65537), every):
        data = {"large": n, "operation": name}
        if ctx.selected(data):
            with ctx.case(data, steps=2):
                play(ctx, n, [("id array", 0), (name, 0), ("copy", 0)])
