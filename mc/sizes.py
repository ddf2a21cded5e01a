"""Batches of every order of magnitude: a few columns that come again and again have to be answered alike every time."""
import numpy as np


def sizes(top=17, more=()):
    s = {2 ** k + e for k in range(5, top) for e in (-1, 0, 1)} | {10 ** k + e for k in range(2, 6) for e in (-1, 0, 1)}
    return sorted(n for n in s | set(more) | {300, 1500, 5000} if n <= 2 ** (top - 1) + 1)


def repeated(ctx, what, f, few, size, rtol=1e-9, atol=1e-9, axis=-1):
    """f(columns) -> arrays whose last axis is the columns; `few` holds m different columns"""
    few = np.asarray(few)
    m = few.shape[axis]
    idx = np.arange(size) % m
    want = f(few)
    got = f(np.take(few, idx, axis=axis))
    ctx.nontrivial += size
    ctx.evaluations += size
    for k, (w, g) in enumerate(zip(want, got)):
        w, g = np.asarray(w), np.asarray(g)
        if not ctx.expect(g.shape[:-1] == w.shape[:-1] and g.shape[-1] == size, f"{what}: the answer for a large batch has another shape",
                          n=size, got=list(g.shape), want=list(w.shape[:-1]) + [size]):
            return False
        x = w[..., idx]
        if w.dtype.kind in "fc":
            with np.errstate(invalid="ignore"):
                bad = ~((np.abs(g - x) <= atol + rtol * np.abs(x)) | (g == x) | (np.isnan(g) & np.isnan(x)))
        else:
            bad = g != x
        if bad.any():
            at = tuple(int(v) for v in np.argwhere(bad)[0])
            ctx.fail(f"{what}: answered differently in a large batch", n=size, output=k, column=at[-1], n_bad=int(bad.any(axis=tuple(range(bad.ndim - 1))).sum()),
                     got=g[at], want=x[at])
            return False
    return True
