"""Ray lattices."""
import itertools
import numpy as np


def bundle(o, d):
    """2x4xn ray array from nx3 origins and directions (directions are used as they are)"""
    o, d = np.asarray(o, dtype=float), np.asarray(d, dtype=float)
    r = np.zeros((2, 4, o.shape[0]))
    r[0, :3], r[1, :3] = o.T, d.T
    r[0, 3] = 1
    return r


def unit(d):
    d = np.asarray(d, dtype=float)
    return d / np.linalg.norm(d, axis=-1, keepdims=True)


def aim(origins, targets, normalize=True):
    """every origin to every target"""
    o = np.repeat(np.asarray(origins, dtype=float), len(targets), axis=0)
    t = np.tile(np.asarray(targets, dtype=float), (len(origins), 1))
    keep = np.linalg.norm(t - o, axis=1) > 1e-9
    o, t = o[keep], t[keep]
    return bundle(o, unit(t - o) if normalize else t - o)


def cross(origins, dirs):
    o = np.repeat(np.asarray(origins, dtype=float), len(dirs), axis=0)
    d = np.tile(np.asarray(dirs, dtype=float), (len(origins), 1))
    return bundle(o, d)


def join(*bundles):
    return np.concatenate(bundles, axis=2)


AXES = [(1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1)]
DIRS26 = [d for d in itertools.product((-1, 0, 1), repeat=3) if any(d)]
# directions at small angles to every axis, over the decades in which tolerances live
TILTS = [1e-12, 1e-10, 3e-9, 1e-8, 3e-8, 1e-7, 1e-6, 1e-5, 5e-5, 9e-5, 2e-4, 1e-3, 1e-2]


def near_axis(tilts=TILTS, azimuths=((1, 0), (-0.6, 0.8))):
    out = []
    for ax in range(3):
        for s in (1, -1):
            for t in tilts:
                for u, v in azimuths:
                    d = np.zeros(3)
                    d[ax], d[(ax + 1) % 3], d[(ax + 2) % 3] = s, t * u, t * v
                    out.append(d / np.linalg.norm(d))
    return out


def grid(xs, ys=None, zs=None):
    ys = xs if ys is None else ys
    zs = xs if zs is None else zs
    return np.array(list(itertools.product(xs, ys, zs)), dtype=float)
