"""C32: boolean combination of sorted hit lists.  Every pair of interval lists over a small line, with ties and missing hits."""
import itertools
import numpy as np
from tinygfx.g3d.csg import Operation, array_csg
from mc import core

LEVEL = "model_checking"
RULE = ("state = ordered pair of hit lists (up to 3 intervals each, in the thorough tier 4, end points from 5 places and the two infinities, ties "
        "included) x operation; all pairs as columns of one call and one by one as flat lists; the result is compared, after cancelling "
        "intervals of no length, with the end points of the point set computed gap by gap; non-trivial = a non-empty combination")
ASSUMPTIONS = ["an end point shared by several intervals may be kept as an interval of no length or dropped"]

OPS = (Operation.UNION, Operation.INTERSECT, Operation.DIFFERENCE)
SCALES = {"unit": (0.0, 1.0, 2.0, 3.0, 4.0), "wide": (-1e9, -1e-12, 0.0, 1e-12, 7e5), "close": (1.0, 1.0 + 2.3e-16, 1.0 + 1e-9, 1.001, 2.0)}


def lists(m, places, low):
    """every list of m intervals, as numbers of places (-1 low infinity, len(places) missing)"""
    P = len(places)
    out = [s for s in itertools.combinations_with_replacement(range(P + 1), 2 * m)]
    if low and m:
        out += [(-1,) + s for s in itertools.combinations_with_replacement(range(P + 1), 2 * m - 1)]
    return np.array(out, dtype=int).reshape(len(out), 2 * m).T


def inside(idx, P):
    """membership of the gaps: gap g lies before place g; 2m x n -> P+1 x n"""
    return np.array([(idx < g).sum(axis=0) % 2 for g in range(P + 1)], dtype=bool)


def combine(a, b, op):
    return a | b if op == Operation.UNION else a & b if op == Operation.INTERSECT else a & ~b


def judge(ctx, places, la, lb, op, out, what):
    """la, lb index arrays, out the values returned for them; all columns at once"""
    P = len(places)
    n = la.shape[1]
    ctx.evaluations += n
    if not ctx.expect(out.ndim == 2 and out.shape[1] == n, f"{what}: wrong shape", got=out.shape):
        return False
    if not ctx.expect(bool(np.all(out[:-1] <= out[1:])) and not np.isnan(out).any(), f"{what}: the result is not sorted"):
        return False
    member = combine(inside(la, P), inside(lb, P), op)
    edge = np.vstack((member[:1], member[:-1] ^ member[1:]))     # -inf, then each place
    ctx.nontrivial += int(member.any(axis=0).sum())
    ctx.count("empty", int((~member.any(axis=0)).sum()))
    ctx.count("one interval", int((member.any(axis=0) & (edge.sum(axis=0) <= 2)).sum()))
    ctx.count("several intervals", int((edge.sum(axis=0) > 2).sum()))
    known = np.zeros(n, dtype=int)
    bad = np.zeros(n, dtype=bool)
    both = np.vstack((la, lb))
    for i in range(-1, P):
        v = -np.inf if i < 0 else places[i]
        k = (out == v).sum(axis=0)
        known += k
        # an end point stands an odd number of times, and nothing stands more often than it came in
        bad |= (k % 2 == 1) != edge[i + 1]
        bad |= k > (both == i).sum(axis=0)
    bad |= known + np.isposinf(out).sum(axis=0) != out.shape[0]
    if bad.any():
        j = int(np.nonzero(bad)[0][0])
        full = np.append(np.array(places), [np.inf, -np.inf])
        ctx.fail(f"{what}: wrong combination", left=full[la[:, j]], right=full[lb[:, j]], operation=op.name, got=out[:, j],
                 want=[-np.inf] * int(edge[0, j]) + [places[i] for i in range(P) if edge[i + 1, j]], n_bad=int(bad.sum()))
        return False
    return True


def values(idx, places):
    return np.append(np.array(places), [np.inf, -np.inf])[idx]


def run(ctx):
    t = ctx.thorough
    for scale, places in SCALES.items():
        for ma, mb in core.product(range(0, 4), range(0, 4)):
            if (ma == 3 or mb == 3) and scale != "unit" and not t:
                continue
            for low in (False, True):
                A, B = lists(ma, places, low), lists(mb, places, low)
                per = max(1, 60000 // B.shape[1])
                for op in OPS:
                    for start in range(0, A.shape[1], per):
                        data = {"scale": scale, "intervals": (ma, mb), "low": low, "op": op.name, "from": start}
                        if not ctx.selected(data):
                            continue
                        a = A[:, start:start + per]
                        la, lb = np.repeat(a, B.shape[1], axis=1), np.tile(B, (1, a.shape[1]))
                        with ctx.case(data, steps=la.shape[1], sample_every=97):
                            va, vb = values(la, places), values(lb, places)
                            keep = va.copy(), vb.copy()
                            out = np.asarray(array_csg(va, vb, op))
                            judge(ctx, places, la, lb, op, out, "columns")
                            raw = np.asarray(array_csg(va, vb, op, sort_output=False))
                            ctx.expect(np.array_equal(np.sort(raw, axis=0), out), "the unsorted result holds other hits", n=la.shape[1])
                            ctx.expect(np.array_equal(keep[0], va) and np.array_equal(keep[1], vb), "the caller's lists were changed")
                            # each ray by itself and as a flat list
                            stride = 1 if (t and scale == "unit") or la.shape[1] < 3000 else 41
                            for j in range(0, la.shape[1], stride):
                                flat = np.asarray(array_csg(va[:, j], vb[:, j], op))
                                if not ctx.expect(np.array_equal(flat, out[:, j]), "a flat list gives another result than a column", left=va[:, j], right=vb[:, j],
                                                  flat=flat, column=out[:, j]):
                                    break
                            for j in range(0, la.shape[1], max(stride, 7)):
                                col = np.asarray(array_csg(va[:, j:j + 1], vb[:, j:j + 1], op))
                                if not ctx.expect(np.array_equal(col[:, 0], out[:, j]), "a ray alone gives another result than in a batch", left=va[:, j],
                                                  right=vb[:, j], alone=col, batch=out[:, j]):
                                    break
    # four intervals a side, columns only
    places = SCALES["unit"][:4] if not t else SCALES["unit"]
    for ma, mb in ((4, 1), (1, 4), (4, 2), (2, 4), (4, 4)) + (((5, 2), (2, 5)) if t else ()):
        A, B = lists(ma, places, False), lists(mb, places, False)
        per = max(1, 100000 // B.shape[1])
        for op in OPS:
            for start in range(0, A.shape[1], per):
                data = {"long": (ma, mb), "op": op.name, "from": start}
                if ctx.selected(data):
                    a = A[:, start:start + per]
                    la, lb = np.repeat(a, B.shape[1], axis=1), np.tile(B, (1, a.shape[1]))
                    with ctx.case(data, steps=la.shape[1]):
                        judge(ctx, places, la, lb, op, np.asarray(array_csg(values(la, places), values(lb, places), op)), "columns")
    # the result of one combination is the input of the next: (A op B) op C and A op (B op C)
    places = SCALES["unit"]
    A = lists(1, places, False)
    n = A.shape[1]
    ia, ib, ic = (x.ravel() for x in np.meshgrid(*[np.arange(n)] * 3, indexing="ij"))
    la, lb, lc = A[:, ia], A[:, ib], A[:, ic]
    va, vb, vc = (values(x, places) for x in (la, lb, lc))
    P = len(places)
    for op1, op2 in core.product(OPS, OPS):
        for side in ("left", "right"):
            data = {"nested": (op1.name, op2.name), "side": side}
            if ctx.selected(data):
                with ctx.case(data, steps=2 * len(ia)):
                    if side == "left":
                        out = array_csg(array_csg(va, vb, op1), vc, op2)
                        member = combine(combine(inside(la, P), inside(lb, P), op1), inside(lc, P), op2)
                    else:
                        out = array_csg(va, array_csg(vb, vc, op1), op2)
                        member = combine(inside(la, P), combine(inside(lb, P), inside(lc, P), op1), op2)
                    edge = np.vstack((member[:1], member[:-1] ^ member[1:]))
                    bad = ~(np.asarray(out)[:-1] <= np.asarray(out)[1:]).all(axis=0)
                    for i in range(P):
                        bad |= ((out == places[i]).sum(axis=0) % 2 == 1) != edge[i + 1]
                    ctx.nontrivial += int(member.any(axis=0).sum())
                    j = int(np.argmax(bad))
                    ctx.expect(not bad.any(), "wrong nested combination", n=len(ia), a=va[:, j], b=vb[:, j], c=vc[:, j], got=np.asarray(out)[:, j])
