"""C29: wavelength colors.  A fine grid of wavelengths with all zone limits x gammas x array shapes, orders and types."""
import numpy as np
from pyrayt.utils import wavelength_to_rgb
from mc import core, sizes

LEVEL = "model_checking"
RULE = ("state = gamma x wavelength grid (0.05 nm steps from the far ultraviolet to the infrared, every limit of the map with its "
        "neighbouring floats) in arrays of every small size, order and type; each color is compared with the piecewise map; "
        "non-trivial = a wavelength compared")
ASSUMPTIONS = ["the map is the usual one: linear ramps between 0.38, 0.44, 0.49, 0.51, 0.58, 0.645 and 0.75 um, faded at the ends"]

LIMITS = (0.38, 0.44, 0.49, 0.51, 0.58, 0.645, 0.75)


def reference(w, gamma, slack=0.0):
    """3xn, each wavelength by itself; slack: with the bases of the powers that much too large"""
    out = []
    for x in np.asarray(w, dtype=float):
        x = min(max(x, 0.38), 0.75)
        r = g = b = 0.0
        fade = 1.0
        if x < 0.44:
            fade = 0.3 + 0.7 * (x - 0.38) / 0.06
            r, b = (0.44 - x) / 0.06, 1.0
        elif x < 0.49:
            g, b = (x - 0.44) / 0.05, 1.0
        elif x < 0.51:
            g, b = 1.0, (0.51 - x) / 0.02
        elif x < 0.58:
            r, g = (x - 0.51) / 0.07, 1.0
        elif x < 0.645:
            r, g = 1.0, (0.645 - x) / 0.065
        else:
            r = 1.0
            fade = 0.3 + 0.7 * (0.75 - x) / 0.105
        c = [max(max(c, 0.0) * fade + (slack if 0 < c < 1 else 0.0), 0.0) for c in (r, g, b)]
        out.append([v ** gamma if v > 0 else 0.0 for v in c])
    return np.array(out, dtype=float).reshape(-1, 3).T


def grid(dense):
    step = 5e-5 if not dense else 5e-6
    g = np.arange(0.36, 0.78, step)
    around = [np.nextafter(l, s) for l in LIMITS for s in (0, 1)] + [l + d for l in LIMITS for d in (0, 1e-12, -1e-12, 1e-7, -1e-7, 1e-4, -1e-4)]
    return np.sort(np.concatenate((g, around, [0.0, 1e-3, 0.1, 0.2, 0.3, 0.379999, 0.8, 1.0, 1.55, 10.6, 1e3])))


def judge(ctx, w, gamma, got, what):
    want = reference(w, gamma).T
    # what rounding of the wavelength may do to the base of the power, which a small gamma makes much of
    low, high = reference(w, gamma, -1e-13).T - 1e-9, reference(w, gamma, 1e-13).T + 1e-9
    if not ctx.expect(np.shape(got) == want.shape, f"{what}: wrong shape", got=np.shape(got), want=want.shape):
        return
    got = np.asarray(got)
    ok = ((low <= got) & (got <= high)).all(axis=1) & (got >= 0).all(axis=1) & (got <= 1 + 1e-12).all(axis=1)
    ctx.evaluations += len(want)
    ctx.nontrivial += len(want)
    ctx.count(what, len(want))
    if not ok.all():
        i = int(np.nonzero(~ok)[0][0])
        ctx.fail(f"{what}: wrong color", wavelength=float(np.asarray(w)[i]), gamma=gamma, got=got[i], want=want[i], n_bad=int((~ok).sum()))


def run(ctx):
    t = ctx.thorough
    gammas = (0.8, 1.0, 0.5, 2.2, 1e-3, 0.25, 0.05, 0.01, 4.0, 12.0, 50.0)
    g = grid(t)
    for gamma in gammas:
        for part in range(16):
            w = g[part::16]
            data = {"gamma": gamma, "part": part}
            if ctx.selected(data):
                with ctx.case(data, steps=len(w)):
                    judge(ctx, w, gamma, wavelength_to_rgb(w, gamma) if gamma != 0.8 else wavelength_to_rgb(w), "array")
                    judge(ctx, w[::-1], gamma, wavelength_to_rgb(w[::-1], gamma=gamma), "reversed array")
                    # one by one
                    for x in w[::1 if t else 3]:
                        c = np.asarray(wavelength_to_rgb(float(x), gamma))
                        if not ctx.expect(c.shape == (3,), "color of a single wavelength has the wrong shape", got=c.shape):
                            return
                        judge(ctx, [x], gamma, c[None], "scalar")
    # continuity over the visible range, at every pair of neighbours of a fine grid
    for gamma in gammas[:4]:
        data = {"continuity": gamma}
        if ctx.selected(data):
            with ctx.case(data):
                w = np.arange(0.37, 0.76, 1e-6)
                c = np.asarray(wavelength_to_rgb(w, gamma))
                jump = np.abs(np.diff(c, axis=0)).max(axis=1)
                lim = 2 * (1e-6 / 0.02) ** min(gamma, 1) + 1e-4
                ctx.expect(bool(np.all(jump < lim)), "the map jumps", n=len(w), at=float(w[int(np.argmax(jump))]), jump=float(jump.max()))
                ctx.expect(bool(np.all(c[w < 0.38] == c[0])) and bool(np.allclose(c[w > 0.75], c[-1])), "the map is not constant outside the visible range")
    # arrays of every size
    for size in sizes.sizes(19 if t else 17):
        data = {"wavelengths": size}
        if ctx.selected(data):
            with ctx.case(data):
                sizes.repeated(ctx, "colors", lambda a: [np.asarray(wavelength_to_rgb(a)).T], np.linspace(0.36, 0.8, 47), size, 1e-12, 1e-12)
    # arrays of every small size over one wavelength per zone, in every order: no influence between neighbours
    one = [0.2, 0.4, 0.46, 0.5, 0.55, 0.6, 0.7, 0.9]
    for n in range(0, 5 if t else 4):
        for ws in core.product(*[one] * n):
            data = {"array": ws}
            if ctx.selected(data):
                with ctx.case(data):
                    if n == 0:
                        ctx.expect(np.shape(wavelength_to_rgb(np.array([]))) == (0, 3), "no wavelengths, no colors")
                        continue
                    a = np.array(ws)
                    b = a.copy()
                    judge(ctx, ws, 0.8, wavelength_to_rgb(a), "small array")
                    ctx.expect(np.array_equal(a, b), "the caller's wavelengths were changed")
    # forms of input
    import pandas as pd
    for form, make in (("list", list), ("tuple", tuple), ("float32", lambda w: np.array(w, dtype=np.float32)), ("series", pd.Series),
                       ("odd index", lambda w: pd.Series(w, index=np.arange(len(w))[::-1] * 2)), ("view", lambda w: np.repeat(w, 2)[::2])):
        for gamma in gammas[:3]:
            data = {"form": form, "gamma": gamma}
            if ctx.selected(data):
                with ctx.case(data):
                    w = np.array(one + [0.451, 0.635, 0.72, 0.395])
                    a = make(w)
                    got = wavelength_to_rgb(a, gamma)
                    if form == "float32":
                        want = reference(w, gamma).T
                        ctx.expect(np.shape(got) == want.shape and bool(np.all(np.abs(got - want) < 1e-4)), "wrong colors of single precision")
                    else:
                        judge(ctx, w, gamma, got, form)
    for kind, x in (("int", 1), ("int 0", 0), ("np.float64", np.float64(0.55)), ("0d", np.array(0.48)), ("float32", np.float32(0.6))):
        data = {"scalar": kind}
        if ctx.selected(data):
            with ctx.case(data):
                got = np.asarray(wavelength_to_rgb(x))
                ctx.expect(got.shape == (3,) and bool(np.all(np.abs(got - reference([float(x)], 0.8)[:, 0]) < 1e-6)), "wrong color of a scalar", got=got)
