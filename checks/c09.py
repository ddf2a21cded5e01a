"""C09: dispersion.  Every glass x every wavelength shape, and every history of queries and coefficient changes."""
import numpy as np
import pyrayt
import tinygfx.g3d as cg
from pyrayt import materials as matl
from mc import core, sizes
from mc.oracle import LD

LEVEL = "model_checking"
RULE = ("state = glass after a sequence of queries and changes of its coefficients; in every state the index is compared "
        "with the Sellmeier equation at a lattice of wavelengths given as scalars and arrays of several shapes, the Abbe "
        "number with the definition, and the index of rays refracted into the glass with both; non-trivial = a query")
ASSUMPTIONS = ["wavelengths closer than 1e-3 um to a pole of the equation, or where it gives n^2 < 0, are not compared"]

WAVES = [0.105, 0.185, 0.21, 0.31, 0.365, 0.404656, 0.4358, 0.4861, 0.5461, 0.5876, 0.5893, 0.6328, 0.6563, 0.7065, 0.852, 1.064,
         1.55, 2.3, 3.1, 4.7, 7.3, 13.0, 40.0]
WHOLE = [np.array([1]), np.array([1, 2]), np.array([[2, 1], [1, 1]], dtype=np.int32)]
CATALOG = {   # Schott catalog: coefficients, n_d at 0.5876 um, Abbe number
    "BK7": ((1.03961212, 0.231792344, 1.01046945, 0.00600069867, 0.0200179144, 103.560653), 1.5168, 64.17),
    "SF5": ((1.52481889, 0.187085527, 1.42729015, 0.011254756, 0.0588995392, 129.141675), 1.67271, 32.25),
    "SF2": ((1.40301821, 0.231767504, 0.939056586, 0.0105795466, 0.0493226978, 112.405955), 1.64769, 33.82),
}
FIELDS = ("b1", "b2", "b3", "c1", "c2", "c3")
SETS = [(1.03961212, 0.231792344, 1.01046945, 0.00600069867, 0.0200179144, 103.560653),
        (0.6961663, 0.4079426, 0.8974794, 0.0046791, 0.0135121, 97.934), (1.25, 0, 0, 0, 0, 0), (0, 0, 0, 0, 0, 0),
        (1.43, 0.65, 5.34, 0.0053, 0.0142, 325.0), (0, 0.7, 0, 0.02, 0.03, 0.04), (0, 0, 0.9, 0, 0, 0.01),
        (2.0, 0, 0, 0.06, 0, 0), (1, 2, 3, 0.001, 0.002, 0.003),
        (1.1, 0.3, 0.9, 0.006, 0.02, -2.0), (1.4, 0.2, 0.5, -0.01, 0.02, 100.0), (2.2, -0.15, -0.1, 0.01, -0.03, -50.0)]


def sellmeier(k, w):
    w = np.asarray(w, dtype=LD)
    k = [LD(float(v)) for v in k]
    return 1 + sum(k[i] * w ** 2 / (w ** 2 - k[i + 3]) for i in range(3))


def fine(k, w):
    """clear of the poles, and a real index"""
    w2 = float(w) ** 2
    return all(abs(w2 - c) > 1e-3 or b == 0 for b, c in zip(k[:3], k[3:])) and sellmeier(k, w) > 0.01


def shapes(ws):
    a = np.array(ws, dtype=float)
    out = [a, a[::-1], a[:1], a[:0], np.stack((a, a[::-1])), a.reshape(-1, 1)]
    if len(a) >= 4:
        out += [a[:4].reshape(2, 1, 2), np.asfortranarray(np.stack((a, a))), a[::2]]
    return out


def check_index(ctx, glass, index, ws, what, whole=()):
    """index: function of a longdouble array"""
    for w in ws:
        for arg in (float(w), np.float64(w)):
            got = glass.index_at(arg)
            ctx.expect(np.ndim(got) == 0 and abs(float(got) - float(index(w))) < 1e-12 * (1 + abs(float(index(w)))),
                       f"{what}: wrong index at {w} um", got=got, want=float(index(w)))
    for a in shapes(ws):
        keep = a.copy()
        got = np.asarray(glass.index_at(a))
        want = np.asarray(index(a), dtype=float)
        ctx.expect(got.shape == a.shape and bool(np.allclose(got, want, rtol=1e-12, atol=0)),
                   f"{what}: wrong indices for an array of wavelengths of shape {a.shape}", n=a.size, got=got, want=want)
        ctx.expect(bool(np.array_equal(a, keep)), f"{what}: the wavelengths given were changed")
    for a in whole:         # wavelengths that happen to be whole numbers
        got = np.asarray(glass.index_at(a))
        want = np.asarray(index(a.astype(float)), dtype=float)
        ctx.expect(got.shape == a.shape and bool(np.allclose(got.astype(float), want, rtol=1e-12, atol=0)),
                   f"{what}: wrong indices for an array of whole wavelengths", got=got, want=want)
    ctx.nontrivial += len(ws)


def check_abbe(ctx, glass, index, what):
    nf, nd, nc = (index(w) for w in ("0.4861", "0.5893", "0.6563"))
    if abs(float(nf - nc)) < 1e-9:
        ctx.ambiguous += 1
        return
    want = float((nd - 1) / (nf - nc))
    got = glass.abbe()
    ctx.expect(abs(got - want) < 1e-9 * abs(want) * max(1, 1e-3 / abs(float(nf - nc))), f"{what}: wrong Abbe number",
               got=got, want=want)
    ctx.count("abbe")


class World:
    def __init__(self, k):
        self.k = list(k)
        self.glass = matl.SellmeierRefractor(*k)
        self.other = matl.SellmeierRefractor(*SETS[1])

    def index(self, w):
        return np.sqrt(sellmeier(self.k, np.array(w, dtype=LD) if not isinstance(w, str) else LD(w)))

    def waves(self):
        return [w for w in WAVES if fine(self.k, w)]

    def set(self, field, v):
        self.k[FIELDS.index(field)] = v
        setattr(self.glass, field, v)

    def trace(self, ctx, what):
        """rays of all wavelengths from outside, at normal incidence, through one batch"""
        ws = self.waves()
        if not ws:
            return
        rs = pyrayt.RaySet(len(ws))
        rs.rays[0, 0], rs.rays[1, 0] = -1, 1
        rs.wavelength = np.array(ws)
        out = self.glass.trace(cg.Sphere(1), rs)
        ctx.expect(bool(np.allclose(out.index, np.asarray(self.index(np.array(ws)), dtype=float), rtol=1e-12)),
                   f"{what}: rays take a wrong index on entering", got=out.index)
        ctx.expect(bool(np.array_equal(out.wavelength, np.array(ws))), f"{what}: rays change wavelength on entering")


def run(ctx):
    # fixed glasses
    for name, (k, nd, v) in CATALOG.items():
        data = {"catalog": name}
        if ctx.selected(data):
            with ctx.case(data):
                g = matl.glass[name]
                index = lambda w: np.sqrt(sellmeier(k, LD(w) if isinstance(w, str) else w))
                check_index(ctx, g, index, [w for w in WAVES if fine(CATALOG[name][0], w)], name, WHOLE)
                check_abbe(ctx, g, index, name)
                ctx.expect(abs(g.index_at(0.587562) - nd) < 6e-5, f"{name}: index differs from the catalog",
                           got=g.index_at(0.587562), want=nd)
                ctx.expect(abs(g.abbe() - v) < 0.15, f"{name}: Abbe number differs from the catalog", got=g.abbe(), want=v)
    for n in [1, 1.5, 1.33, 2.4, 0.9, 2, "ideal"]:
        data = {"basic": n}
        if ctx.selected(data):
            with ctx.case(data):
                g = matl.glass["ideal"] if n == "ideal" else matl.BasicRefractor(n)
                v = LD(1.5 if n == "ideal" else n)
                check_index(ctx, g, lambda w: np.full(np.shape(w), v), WAVES, f"BasicRefractor({n})", WHOLE)
    # every combination of coefficients from a small alphabet
    alphabet = [(0, 0.5, 1.2), (0, 0.25, -0.15), (0, 0.9), (0, 0.006, -0.01), (0, 0.02), (0.03, 103.5, -2.0)]
    if ctx.thorough:
        alphabet = [(0, 0.5, 1.2, 2, -0.1), (0, 0.25, 0.7, -0.15), (0, 0.9, 1.4, -0.1), (0, 0.006, 0.012, -0.01), (0, 0.02, 0.06, -0.03),
                    (0, 0.03, 103.5, -2.0)]
    for k in SETS + list(core.product(*alphabet)):
        data = {"coefficients": list(k)}
        if not ctx.selected(data):
            continue
        with ctx.case(data):
            w = World(k)
            check_index(ctx, w.glass, w.index, w.waves(), "Sellmeier glass", [np.array([x for x in (1, 2) if fine(k, x)])])
            if all(fine(k, x) for x in (0.4861, 0.5893, 0.6563)):
                check_abbe(ctx, w.glass, w.index, "Sellmeier glass")
    # arrays of every size
    for size in sizes.sizes(19 if ctx.thorough else 17):
        for name in ("BK7", "SF5", "ideal"):
            data = {"wavelengths": size, "glass": name}
            if ctx.selected(data):
                with ctx.case(data):
                    sizes.repeated(ctx, name, lambda a: [matl.glass[name].index_at(a)], np.linspace(0.37, 1.6, 43), size, 1e-12, 0)
    # some of the coefficients, the others are zero
    for keep in core.product(*[(False, True)] * 6):
        for form in ("keywords", "in order"):
            if form == "in order" and sorted(keep, reverse=True) != list(keep):
                continue
            data = {"given": keep, "as": form}
            if ctx.selected(data):
                with ctx.case(data):
                    k = [v if on else 0 for v, on in zip((1.2, 0.7, 0.9, 0.012, 0.02, 103.5), keep)]
                    g = matl.SellmeierRefractor(*k[:sum(keep)]) if form == "in order" else matl.SellmeierRefractor(
                        **{f: v for f, v, on in zip(FIELDS, k, keep) if on})
                    ws = [w for w in WAVES if fine(k, w)]
                    check_index(ctx, g, lambda w: np.sqrt(sellmeier(k, w)), ws, "Sellmeier glass with some coefficients")
                    again = matl.SellmeierRefractor()
                    check_index(ctx, again, lambda w: np.ones(np.shape(w), dtype=LD), WAVES, "Sellmeier glass without coefficients")
    # histories
    ops = ["abbe", "scalar", "array", "trace", "other"] + [f"{f}={v}" for f, v in
                                                         (("b1", 1.4), ("b2", 0.3), ("b3", 0.8), ("c1", 0.009),
                                                          ("c2", 0.03), ("c3", 90.0))] + ["all"]
    for start in (0, 2) if not ctx.thorough else (0, 2, 4):
        for seq in core.sequences(ops, 4 if ctx.thorough else 3):
            data = {"start": start, "ops": list(seq)}
            if not ctx.selected(data):
                continue
            with ctx.case(data, steps=len(seq)):
                w = World(SETS[start])
                shared = np.array([0.45, 0.55, 0.65])
                for op in seq + ("final",):
                    if op == "abbe":
                        check_abbe(ctx, w.glass, w.index, "after changes")
                    elif op == "scalar":
                        ctx.expect(abs(w.glass.index_at(0.55) - float(w.index(LD(0.55)))) < 1e-12,
                                   "after changes: wrong index at 0.55 um")
                    elif op == "array":
                        shared += 0.05      # the caller reuses the array
                        got = w.glass.index_at(shared)
                        ctx.expect(bool(np.allclose(got, np.asarray(w.index(shared), dtype=float), rtol=1e-12)),
                                   "after changes: wrong indices for an array")
                        if isinstance(got, np.ndarray):
                            got[:] = 0
                    elif op == "trace":
                        w.trace(ctx, "after changes")
                    elif op == "other":
                        w.other.b1 += 0.01
                        w.other.abbe(), w.other.index_at(0.55)
                    elif op == "all":
                        for f, v in zip(FIELDS, SETS[4]):
                            w.set(f, v)
                    elif op == "final":
                        check_index(ctx, w.glass, w.index, [0.4, 0.55, 0.7], "after changes")
                        check_abbe(ctx, w.glass, w.index, "after changes")
                    else:
                        f, v = op.split("=")
                        w.set(f, float(v))
