"""C31: quadratic solvers and the row-wise dot product.  Every triple of coefficients from a lattice of decades against exact arithmetic."""
from decimal import Decimal, getcontext
from fractions import Fraction
import numpy as np
from tinygfx.g3d.operations import binomial_root, element_wise_dot, smallest_positive_root
from mc import core

getcontext().prec = 70
LEVEL = "model_checking"
RULE = ("state = one equation a x^2 + b x + c = 0 with a, b, c from a lattice of signs and decades (small integers exhaustively, then 1e-60 to "
        "1e9), solved alone and in every kind of batch; the true roots come from exact rational arithmetic with 70-digit square roots; "
        "non-trivial = an equation with a real root")
ASSUMPTIONS = ["an equation whose discriminant is within 1e-9 of zero relative to its terms, and not exactly computable, may go either way",
               "coefficients whose products overflow or underflow are out of scope"]

EPS = np.finfo(float).eps


def dec(f):
    return Decimal(f.numerator) / Decimal(f.denominator)


def solve(a, b, c):
    """(number of real roots, roots ascending as floats, relative error allowed, decided)"""
    A, B, C = Fraction(a), Fraction(b), Fraction(c)
    if A == 0:
        if B == 0:
            return "none", [], 0.0, True
        return "line", [float(-C / B)], 8 * EPS, True
    D = B * B - 4 * A * C
    size = B * B + abs(4 * A * C)
    if D == 0:
        # decided only if the computation has no rounding at all
        small = all(abs(x) < 2 ** 20 and x * 8 == int(x * 8) for x in (a, b, c))
        return "two", [float(-B / (2 * A))] * 2, 4 * EPS, small
    decided = abs(D) > size * Fraction(1, 10 ** 9)
    if D < 0:
        return "none", [], 0.0, decided
    s = dec(D).sqrt()
    # sum of terms of one sign only
    q = (-dec(B) - s) / 2 if B >= 0 else (-dec(B) + s) / 2
    roots = sorted([q / dec(A), dec(C) / q])
    return "two", [float(r) for r in roots], 8 * EPS * float(1 + size / D), decided


def near(got, want, rel):
    if np.isinf(want) or np.isinf(got):
        return got == want
    return abs(got - want) <= rel * abs(want)


def judge_binomial(ctx, a, b, c, got, sol, what):
    kind, roots, rel, decided = sol
    got = np.sort(np.asarray(got, dtype=float))
    if kind == "line":
        want = [roots[0]] * 2
    elif a == 0:
        want = [-np.inf if c <= 0 else np.inf, np.inf]
    elif kind == "none":
        want = [np.inf, np.inf]
    else:
        want = roots
    ok = got.shape == (2,) and all(near(g, w, rel) for g, w in zip(got, want))
    if not ok and not decided:
        ctx.ambiguous += 1
        return True
    if not ok:
        ctx.expect(False, f"{what}: wrong roots", a=a, b=b, c=c, got=got, want=want, allowed=rel)
    return ok


def judge_smallest(ctx, a, b, c, got, sol, what):
    kind, roots, rel, decided = sol
    good = [r for r in roots if r >= 0]
    want = min(good) if good else np.inf
    ok = near(float(got), want, rel)
    if not ok and not decided:
        ctx.ambiguous += 1
        return True
    if not ok:
        ctx.expect(False, f"{what}: wrong root", a=a, b=b, c=c, got=float(got), want=want, allowed=rel)
    return ok


def line(ctx, a, b, cs):
    """all equations with one a and b, as a batch, and every one by itself"""
    cs = np.array(cs, dtype=float)
    A, B = np.full(len(cs), float(a)), np.full(len(cs), float(b))
    sols = [solve(a, b, c) for c in cs.tolist()]
    ctx.evaluations += 2 * len(cs)
    ctx.nontrivial += sum(1 for s in sols if s[1])
    ctx.count("two roots", sum(1 for s in sols if s[0] == "two"))
    ctx.count("one root", sum(1 for s in sols if s[0] == "line"))
    ctx.count("no root", sum(1 for s in sols if s[0] == "none"))
    got = np.asarray(binomial_root(A, B, cs))
    if not ctx.expect(got.shape == (2, len(cs)), "binomial_root has the wrong shape", got=got.shape):
        return
    for i, c in enumerate(cs.tolist()):
        if not judge_binomial(ctx, a, b, c, got[:, i], sols[i], "binomial_root"):
            return
    if a != 0:
        got = np.asarray(smallest_positive_root(A, B, cs))
        if not ctx.expect(got.shape == (len(cs),), "smallest_positive_root has the wrong shape", got=got.shape):
            return
        for i, c in enumerate(cs.tolist()):
            if not judge_smallest(ctx, a, b, c, got[i], sols[i], "smallest_positive_root"):
                return


def batches(ctx, eqs):
    """a batch gives each equation what it gets alone, whatever stands next to it and however the arrays are laid out"""
    A, B, C = (np.array(x, dtype=float) for x in zip(*eqs))
    keep = (A.copy(), B.copy(), C.copy())
    n = len(A)
    two = np.asarray(binomial_root(A, B, C))
    one = np.asarray(smallest_positive_root(A, B, C))
    for i in range(n):
        s = np.asarray(binomial_root(A[i:i + 1], B[i:i + 1], C[i:i + 1]))
        if not ctx.expect(s.shape == (2, 1) and np.array_equal(np.sort(s[:, 0]), np.sort(two[:, i])), "binomial_root: an equation has other roots in a batch",
                          eq=eqs[i], alone=s, batch=two[:, i]):
            return
        s = np.asarray(smallest_positive_root(A[i:i + 1], B[i:i + 1], C[i:i + 1]))
        if not ctx.expect(s.shape == (1,) and s[0] == one[i], "smallest_positive_root: an equation has another root in a batch", eq=eqs[i], alone=s, batch=one[i]):
            return
    r = slice(None, None, -1)
    ctx.expect(np.array_equal(np.sort(binomial_root(A[r], B[r], C[r]), axis=0), np.sort(two[:, r], axis=0)), "binomial_root: reversed batch", n=n)
    ctx.expect(np.array_equal(smallest_positive_root(A[r], B[r], C[r]), one[r]), "smallest_positive_root: reversed batch", n=n)
    ctx.expect(np.array_equal(np.sort(binomial_root(A, B, C, B ** 2 - 4 * A * C), axis=0), np.sort(two, axis=0)), "binomial_root: given discriminant", n=n)
    ctx.expect(all(np.array_equal(x, y) for x, y in zip((A, B, C), keep)), "the solver changed its arguments")
    ctx.nontrivial += n


def run(ctx):
    t = ctx.thorough
    k = 12 if t else 6
    ints = list(range(-k, k + 1))
    halves = [x / 4 for x in range(-k, k + 1)]
    for name, vals in (("integers", ints), ("quarters", halves)):
        for a in vals:
            for b in vals:
                data = {"family": name, "a": a, "b": b}
                if ctx.selected(data):
                    with ctx.case(data, steps=2 * len(vals)):
                        line(ctx, a, b, vals)
    # decades
    mant = (1.0, 3.7) if not t else (1.0, 2.3, 3.7, 7.1)
    def decades(lo, hi, step):
        return [0.0] + [s * m * 10.0 ** e for e in range(lo, hi + 1, step) for m in mant for s in (1, -1)]
    As = decades(-20, 8, 1 if t else 2) + decades(-60, -21, 3 if t else 13)[1:]
    Bs = decades(-7, 7, 1 if t else 2) + decades(-40, -8, 2 if t else 5)[1:]
    Cs = decades(-12, 9, 1 if t else 3) + decades(-45, -13, 4 if t else 16)[1:]
    for a in As:
        for b in Bs:
            data = {"family": "decades", "a": a, "b": b}
            if ctx.selected(data):
                with ctx.case(data, steps=2 * len(Cs)):
                    line(ctx, a, b, Cs)
    # pairs of roots given: close together, far apart, either sign
    rs = [0.0, 1e-9, -1e-9, 1e-3, 0.5, -0.5, 0.5000001, 1.0, -1.0, 1.001, 3.0, -7.0, 1e3, -1e3, 1e6]
    for r1 in rs:
        for r2 in rs:
            for s in (1.0, -1.0, 1e-6, -1e-12, 4e3):
                data = {"family": "roots", "r": (r1, r2), "scale": s}
                if ctx.selected(data):
                    with ctx.case(data, steps=2):
                        line(ctx, s, -s * (r1 + r2), [s * r1 * r2])
    # batches: every ordered pair / triple of kinds of equations
    kinds = [(1.0, 0.0, -4.0), (1.0, 2.0, 5.0), (1.0, -3.0, 2.0), (-1.0, 3.0, -2.0), (0.0, 2.0, -4.0), (0.0, 0.0, 1.0), (0.0, 0.0, -1.0), (0.0, 0.0, 0.0),
             (1.0, 2.0, 1.0), (1e-12, 1.0, -3.0), (-1e-20, -5.0, 10.0), (1.0, 3.0, 2.0), (2.0, 0.0, 0.0), (1.0, -1e4, 1.0)]
    for n in (1, 2, 3) if not t else (1, 2, 3, 4):
        for eqs in core.product(*[kinds] * n):
            data = {"batch": eqs}
            if ctx.selected(data):
                with ctx.case(data, steps=2 * n + 5):
                    batches(ctx, list(eqs))
    # dot products: every shape, every pair of small rows
    vals = (-2.0, 0.0, 1.0, 3.5)
    for m in (1, 2, 3, 4):
        for n in (0, 1, 2, 3, 7):
            for form in ("c", "f", "view"):
                data = {"dot": (m, n), "form": form}
                if ctx.selected(data):
                    with ctx.case(data, steps=3):
                        g = np.arange(m * n * 2, dtype=float)
                        x, y = (np.sin(g[i::2]).reshape(m, n) for i in (0, 1))
                        if form == "f":
                            x, y = np.asfortranarray(x), np.asfortranarray(y)
                        elif form == "view":
                            x, y = np.repeat(x, 2, axis=1)[:, ::2], y[::-1][::-1]
                        want0 = [sum(x[i, j] * y[i, j] for i in range(m)) for j in range(n)]
                        want1 = [sum(x[i, j] * y[i, j] for j in range(n)) for i in range(m)]
                        for got, want, what in ((element_wise_dot(x, y), want0, "default"), (element_wise_dot(x, y, axis=0), want0, "axis 0"),
                                                (element_wise_dot(x, y, 1), want1, "axis 1")):
                            ctx.expect(np.shape(got) == np.shape(want) and bool(np.allclose(got, want, rtol=1e-13, atol=1e-14)), f"wrong products, {what}",
                                       n=len(want), got=got, want=want)
                            ctx.nontrivial += len(want)
    for row in core.product(vals, vals, vals):
        data = {"dot rows": row}
        if ctx.selected(data):
            with ctx.case(data, steps=len(vals) ** 3 * 2):
                x = np.array(row)
                others = np.array(list(core.product(vals, vals, vals)))
                got = element_wise_dot(np.tile(x, (len(others), 1)).T, others.T)
                ctx.expect(np.array_equal(got, (others * x).sum(axis=1)), "wrong products of columns", n=len(others))
                for o in others:
                    ctx.expect(float(element_wise_dot(x, o)) == float((x * o).sum()), "wrong product of two vectors", x=row, y=o)
                ctx.nontrivial += 2 * len(others)
