"""C04: rays do not influence each other; component and source order do not matter."""
import itertools
import numpy as np
import pyrayt
import pyrayt.components as pc
from mc import trace, core
from mc.scene import build
from checks import scenes, c02

LEVEL = "model_checking"
RULE = ("state = scene x (permutation of the components | split of the ray batch | order of the sources); all paths are "
        "compared with those of the base trace, ray by ray; non-trivial = a segment compared")
ASSUMPTIONS = ["rays with a tangent, edge or tie on their path (by the reference tracer) are left out"]
COLS = [c for c in trace.COLS if c != "id"]


def table(df, ids=None):
    """{ray id: rows in generation order}"""
    a = df[["id"] + COLS].to_numpy(dtype=float)
    out = {}
    for r in a[np.lexsort((a[:, 1], a[:, 0]))]:
        out.setdefault(int(r[0]), []).append(r[1:])
    return out


def same(ctx, base, got, rays, what):
    """rays: pairs (id in base, id in got)"""
    for a, b in rays:
        x, y = base.get(a, []), got.get(b, [])
        ctx.evaluations += 1
        ctx.nontrivial += len(x)
        if len(x) != len(y):
            ctx.fail(f"{what}: a ray has {len(y)} segments instead of {len(x)}", ray=[a, b])
            return False
        for g, (p, q) in enumerate(zip(x, y)):
            # the paths are the same up to rounding, which grows with every curved surface
            if p[4] != q[4] or not np.allclose(p, q, rtol=1e-9 * 30 ** g, atol=1e-9 * 30 ** g):
                ctx.fail(f"{what}: a ray takes a different path", ray=[a, b], generation=g,
                         base=dict(zip(COLS, p)), got=dict(zip(COLS, q)))
                return False
    return True


def few_many(df, n):
    """generation -> array (ray, column), NaN where there is no row"""
    a = df[["id"] + COLS].to_numpy(dtype=float)
    out = {}
    for g in range(4):
        rows = a[a[:, 1 + COLS.index("generation")] == g]
        t = np.full((n, len(COLS)), np.nan)
        t[rows[:, 0].astype(int)] = rows[:, 1:]
        out[g] = (t, len(rows))
    return out


def same_many(ctx, few, many, m, size):
    for g in few:
        want = few[g][0][np.arange(size) % m]
        got, rows = many[g]
        there = ~np.isnan(want[:, 0])
        ctx.evaluations += size
        ctx.nontrivial += int(there.sum())
        if not ctx.expect(rows == there.sum() and np.array_equal(there, ~np.isnan(got[:, 0])),
                          "rays live differently in a large batch", generation=g, n=rows, want=int(there.sum())):
            return
        tol = 1e-9 * 30 ** g
        bad = there & ~np.isclose(got, want, rtol=tol, atol=tol).all(axis=1)
        if bad.any():
            i = int(np.argmax(bad))
            ctx.fail("a ray takes a different path in a large batch", generation=g, ray=i, n_bad=int(bad.sum()),
                     got=dict(zip(COLS, got[i])), want=dict(zip(COLS, want[i])))
            return


def together(ctx, full):
    part = [i for i in range(0, len(full), 3 if ctx.thorough else 11)]
    # no ray that is aligned with a face
    part = [i for i in part if np.abs(full.d[i]).max() < 0.999]
    src = trace.Fixed(full.o[part], full.d[part], full.wavelength[part], full.intensity[part], full.index[part])
    for name, pose, side in itertools.product(("lens", "snowman", "two-drops", "hollow", "cave", "onion", "pea"), scenes.POSES, "lr"):
        spec = scenes.placed(name, pose)
        data = {"together": name, "pose": pose, "part": side}
        # the inner part of a difference is turned inside out, a shape of its own is not
        if (spec["op"] == "difference" and side == "r") or not ctx.selected(data):
            continue
        with ctx.case(data, steps=6):
            for first in (True, False):
                node = build(spec)
                kid = node.kids["lr".index(side)]
                twin = build(dict(spec[side], ops=list(spec[side].get("ops", [])) + list(spec["ops"])))
                names = {b: a for (a, _), (b, _) in zip(kid.real.surface_ids, twin.real.surface_ids)}
                a, b = [node.real, kid.real][::1 if first else -1], [node.real, twin.real][::1 if first else -1]
                want = pyrayt.RayTracer(src, b, rays_per_source=len(part), generation_limit=4).trace()
                want["surface"] = [names.get(int(v), v) for v in want["surface"]]
                got = pyrayt.RayTracer(src, a, rays_per_source=len(part), generation_limit=4).trace()
                if not same(ctx, table(want), table(got), [(i, i) for i in range(len(part))], "a composite and its part listed"):
                    break


def run(ctx):
    o, d = scenes.lattice(ctx.thorough)
    full = c02.varied(o, d)
    n = len(full)
    limit = 5
    for label, items in scenes.families(ctx.thorough):
        k = int(label[0])
        if k == 1 and not label.endswith("centre") and not ctx.thorough:
            continue
        if k == 2 and not ctx.thorough and sum(map(ord, label)) % 7:
            continue
        data = {"scene": label}
        if not ctx.selected(data):
            continue
        with ctx.case(data):
            nodes = scenes.build_scene(items)
            em = trace.emit(full, n)
            df = pyrayt.RayTracer(full, [x.real for x in nodes], rays_per_source=n, generation_limit=limit).trace()
            known = trace.conform(ctx, df, em, nodes, limit, what="base trace")
            if known is None:
                continue
            base = table(df)
            rays = [i for i in range(n) if known[i]]
            # permutations of the components, as list and as tuple
            for m, perm in enumerate(itertools.permutations(nodes)):
                if m == 0 or (m > 5 and not ctx.thorough):
                    continue
                ctx.transitions += limit
                comps = [x.real for x in perm]
                got = table(pyrayt.RayTracer(full, comps if m % 2 else tuple(comps), rays_per_source=n,
                                             generation_limit=limit).trace())
                if not same(ctx, base, got, [(i, i) for i in rays], "components permuted"):
                    break
            comps = [x.real for x in nodes]
            # an object that is listed again, anywhere in the list, is still one object
            for m, more in enumerate((comps + comps, comps[::-1] + comps[:1], [comps[-1]] * 3 + comps)):
                ctx.transitions += limit
                got = table(pyrayt.RayTracer(full, more if m else tuple(more), rays_per_source=n, generation_limit=limit).trace())
                if not same(ctx, base, got, [(i, i) for i in rays], "components listed again"):
                    break
            # parts of the batch: halves, every third, single rays, reversed
            parts = [list(range(n // 2)), list(range(n // 2, n)), list(range(0, n, 3)), list(range(n))[::-1],
                     [i for i in range(n) if i % 7 in (1, 2)]]
            step = max(1, n // (60 if ctx.thorough else 9))
            parts += [[i] for i in range(sum(map(ord, label)) % step, n, step)]
            # rays that end early next to one that does not, by how long they live
            life = {i: len(base.get(i, [])) for i in rays}
            for length in sorted(set(life.values())):
                group = [i for i in rays if life[i] == length]
                parts.append(group)
                parts.append(group[:1] + [i for i in rays if life[i] < length][-1:])
            for part in parts:
                if not part:
                    continue
                ctx.transitions += limit
                s = trace.Fixed(full.o[part], full.d[part], full.wavelength[part], full.intensity[part], full.index[part])
                got = table(pyrayt.RayTracer(s, comps, rays_per_source=len(part), generation_limit=limit).trace())
                if not same(ctx, base, got, [(i, j) for j, i in enumerate(part) if known[i]],
                            f"a batch of {len(part)} of {n} rays"):
                    break
            # the same rays from several sources, in every order
            third = n // 3
            blocks = [list(range(b * third, (b + 1) * third)) for b in range(3)]
            srcs = [trace.Fixed(full.o[b], full.d[b], full.wavelength[b], full.intensity[b], full.index[b]) for b in blocks]
            for perm in itertools.permutations(range(3)):
                ctx.transitions += limit
                got = table(pyrayt.RayTracer([srcs[p] for p in perm], comps, rays_per_source=third,
                                             generation_limit=limit).trace())
                pairs = [(i, q * third + j) for q, p in enumerate(perm) for j, i in enumerate(blocks[p]) if known[i]]
                if not same(ctx, base, got, pairs, f"sources in order {perm}"):
                    break
    # a composite listed together with one of its own parts: as together with an equal shape of its own
    together(ctx, full)
    # real sources, all orders of three of them, all ray counts
    kinds = {"line": lambda: pc.LineOfRays(0.8, wavelength=0.4).move(-3, 0.1, 0.05),
             "cone": lambda: pc.ConeOfRays(11, wavelength=0.5).move(-4, 0.02, 0.01),
             "wedge": lambda: pc.WedgeOfRays(30, wavelength=0.6).rotate_z(180).move(9, 0.3, 0),
             "circle": lambda: pc.CircleOfRays(0.7, wavelength=0.7).move(-2, -0.03, 0.2)}
    for names, cnt, layer in itertools.product(itertools.permutations(kinds, 3), (1, 2, 5),
                                               [("n1.5", "BK7", "mirror"), ("SF5", "dim0.5", "n1.5"), ("mirror", "n1.5", "absorb")]):
        data = {"sources": names, "n": cnt, "layers": layer}
        if not ctx.selected(data):
            continue
        with ctx.case(data, steps=4):
            nodes = c02.layers(layer)
            comps = [x.real for x in nodes]
            srcs = {k: kinds[k]() for k in names}
            base = {}
            for k in names:
                base[k] = table(pyrayt.RayTracer(srcs[k], comps, rays_per_source=cnt).trace())
            got = table(pyrayt.RayTracer([srcs[k] for k in names], comps, rays_per_source=cnt).trace())
            for q, k in enumerate(names):
                same(ctx, base[k], got, [(i, q * cnt + i) for i in range(cnt)], f"source {k} at place {q}")
    # rays that run close to each other through gently curved faces
    optics = {"lens": lambda: [pc.biconvex_lens(50, 80, 1, aperture=3)],
              "dispersive": lambda: [pc.thick_lens(-400, 900, 0.5, aperture=3, material=pyrayt.materials.glass["SF5"])],
              "mirrors": lambda: [pc.spherical_mirror(1000, 0.5, aperture=4).move_x(3),
                                  pc.parabolic_mirror(300, 1, aperture=2, off_axis=(1.2, 0)).rotate_z(180).move_x(-300)]}
    for (name, make), width, turn in itertools.product(optics.items(), (1e-6, 1e-3, 0.03, 0.5), (0, 40, 90)):
        data = {"bundle": name, "width": width, "turn": turn}
        if not ctx.selected(data):
            continue
        with ctx.case(data, steps=5):
            comps = make()
            m = 7
            src = pc.LineOfRays(width).rotate_x(turn).rotate_z(0.01).move(-2, 0.31, 0.17)
            em = src.generate_rays(m)
            base = table(pyrayt.RayTracer(src, comps, rays_per_source=m).trace())
            for i in range(m):
                one = trace.Fixed(em.rays[0, :3, [i]], em.rays[1, :3, [i]], np.array(em.wavelength)[[i]])
                got = table(pyrayt.RayTracer(one, comps, rays_per_source=1).trace())
                if not same(ctx, base, got, [(i, 0)], "one ray of a narrow bundle alone"):
                    break
    # large batches of rays that come again and again
    sizes = sorted({2 ** k + e for k in range(6, 17) for e in (-1, 0, 1)} | {10 ** k + e for k in (2, 3, 4) for e in (-1, 0, 1)}
                   | {300, 500, 513 * 3, 5000, 50000} | ({2 ** 17 + 1, 200001, 2 ** 18 + 1} if ctx.thorough else set()))
    for size, layer in itertools.product(sizes, [("n1.5", "BK7", "mirror"), ("mirror", "n1.5", "absorb")]):
        data = {"batch": size, "layers": layer}
        if (size > 20000 and layer[0] == "mirror" and not ctx.thorough) or not ctx.selected(data):
            continue
        with ctx.case(data, steps=4):
            nodes = c02.layers(layer)
            comps = [x.real for x in nodes] + [pc.biconvex_lens(20, 20, 1, aperture=3).move_x(6)]
            part = np.arange(3, n, max(1, n // 23))[:23]
            m = len(part)
            few = trace.Fixed(full.o[part], full.d[part], full.wavelength[part], full.intensity[part], full.index[part])
            a = few_many(pyrayt.RayTracer(few, comps, rays_per_source=m, generation_limit=4).trace(), m)
            idx = part[np.arange(size) % m]
            many = trace.Fixed(full.o[idx], full.d[idx], full.wavelength[idx], full.intensity[idx], full.index[idx])
            b = few_many(pyrayt.RayTracer(many, comps, rays_per_source=size, generation_limit=4).trace(), size)
            same_many(ctx, a, b, m, size)
    # an ordinary ray next to one of extraordinary power, wavelength, index or distance
    odd = {"intensity": (1e12, 1e6, 0.1000001, 1e-3), "wavelength": (0.25, 2.2, 40.0), "index": (1e3, 1e-3, 4.0), "back": (1e3, 1e6)}
    ordinary = [k for k in range(0, n, max(1, n // (40 if ctx.thorough else 12)))]
    for layer, (what, values) in itertools.product([("n1.5", "BK7", "mirror"), ("SF5", "dim0.5", "n1.5"), ("mirror", "n1.5", "absorb"),
                                                    ("n1.5", "wave0.7", "BK7")], odd.items()):
        for v, first in itertools.product(values, (True, False)):
            data = {"layers": layer, "odd": what, "value": v, "first": first}
            if not ctx.selected(data):
                continue
            with ctx.case(data, steps=4):
                comps = [x.real for x in c02.layers(layer)]
                part = np.array(ordinary)
                o1, d1 = full.o[part], full.d[part]
                cols = {"wavelength": np.full(len(part), 0.6), "intensity": np.full(len(part), 100.0), "index": np.ones(len(part))}
                alone = table(pyrayt.RayTracer(trace.Fixed(o1, d1, **cols), comps, rays_per_source=len(part)).trace())
                at = 0 if first else len(part)
                o2, d2 = np.insert(o1, at, o1[3] - (v * d1[3] if what == "back" else 0), 0), np.insert(d1, at, d1[3], 0)
                more = {k: np.insert(c, at, v if k == what else c[3]) for k, c in cols.items()}
                got = table(pyrayt.RayTracer(trace.Fixed(o2, d2, **more), comps, rays_per_source=len(part) + 1).trace())
                same(ctx, alone, got, [(i, i + first) for i in range(len(part))], f"next to a ray of {what} {v}")
                # and each with it in a batch of two
                for i in range(len(part)):
                    pick = [at, i + first][::1 if first else -1]
                    two = trace.Fixed(o2[pick], d2[pick], **{k: c[pick] for k, c in more.items()})
                    got = table(pyrayt.RayTracer(two, comps, rays_per_source=2).trace())
                    if not same(ctx, alone, got, [(i, int(first))], f"with one ray of {what} {v}"):
                        break
