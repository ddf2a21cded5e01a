"""Reference images: camera rays, nearest surfaces, Gooch shades and edges, pixel by pixel."""
import numpy as np
from scipy import ndimage

import tinygfx.g3d as cg
from tinygfx.g3d.materials import color, gooch
from pyrayt import materials as matl
from . import oracle, trace
from .oracle import LD

PAINTS = [gooch.GoochMaterial(color.RGBAColor(0.9, 0.1, 0.3), color.RGBAColor(0.7, 0.8, 0.1), color.RGBAColor(0.05, 0.2, 0.95)),
          gooch.GoochMaterial(color.RGBAColor(0.2, 0.7, 0.4, 0.5), color.RGBAColor(1, 0, 0.5), color.RGBAColor(0, 1, 0.3, 0.8), 0.7, 0.1),
          gooch.GoochMaterial(color.RGBAColor(0.3, 0.3, 0.3), color.RGBAColor(0.2, 0.9, 1), color.RGBAColor(0.6, 0, 0), 0.0, 0.5),
          gooch.GoochMaterial(color.RGBAColor(1, 1, 0.2), color.RGBAColor(0.1, 0.4, 0.8), color.RGBAColor(0.9, 0.5, 0.7), 1.0, 0.25)]


class Coat(matl.TracableMaterial):
    """a traceable material rendered with a paint"""

    def trace(self, surface, ray_set):
        return ray_set


COATS = [Coat(p) for p in PAINTS[:2]]


def look(m):
    """the Gooch material something is rendered with"""
    if isinstance(m, gooch.GoochMaterial):
        return m
    for c, p in zip(COATS, PAINTS):
        if m is c:
            return p
    return gooch.BLACK if m is matl.absorber else gooch.BLUE


def parameters(g):
    return [np.array(np.asarray(getattr(g, k)), dtype=LD) for k in ("base_color", "warm_color", "cool_color")] + [LD(g.alpha), LD(g.beta)]


def shade(params, points, normals, lights):
    """4xn colors; lights: list of 3-vectors"""
    base, warm, cool, alpha, beta = params
    w = (1 - alpha) * warm + alpha * base
    c = (1 - beta) * cool + beta * base
    mix = 0
    for l in lights:
        v = np.asarray(l, dtype=LD)[:3, None] - points[:3]
        v = v / np.sqrt((v * v).sum(0))
        mix = mix + (1 + (v * normals[:3]).sum(0)) / 2
    mix = mix / len(lights)
    return w[:, None] * mix + c[:, None] * (1 - mix)


def camera_rays(h, v, width, height, pose):
    """first pixel upper left (+y, +z when looking along +x), rows from left to right"""
    ys = np.array([LD(width) / 2]) if h == 1 else LD(width) / 2 - LD(width) * np.arange(h) / (h - 1)
    zs = np.array([LD(height) / 2]) if v == 1 else LD(height) / 2 - LD(height) * np.arange(v) / (v - 1)
    o = np.zeros((4, v, h), dtype=LD)
    o[3] = 1
    o[1], o[2] = ys[None, :], zs[:, None]
    o = oracle.mm(pose.m, o.reshape(4, -1))
    d = pose.m[:, 0:1]
    d = d / np.sqrt((d[:3] ** 2).sum())
    return np.stack((o, np.repeat(d, h * v, axis=1)))


class Picture:
    """what a camera with these rays sees of the scene"""

    def __init__(self, nodes, rays, shape):
        self.nodes, self.rays, self.shape = nodes, rays, shape
        self.ps = trace.parts(nodes)
        self.near = trace.Nearest(self.ps, rays.astype(float))
        many = np.zeros(rays.shape[2], dtype=bool)
        many[list(self.near.many)] = True
        self.amb = self.near.amb | many
        lab = np.full(rays.shape[2], -1)
        for k, p in enumerate(self.ps):
            m = self.near.part == k
            lab[m] = 100 * (k + 1) + self.near.leaf[m]
        self.label = lab

    def shaded(self, lights, paint):
        """(v x h x 4 colors, known); paint: leaf -> Gooch material"""
        n = self.rays.shape[2]
        img = np.zeros((4, n))
        known = ~self.amb
        for k, p in enumerate(self.ps):
            for j, leaf in enumerate(p.leaves):
                m = known & (self.near.part == k) & (self.near.leaf == j)
                if m.any():
                    pts = self.rays[0][:, m] + self.near.t[m] * self.rays[1][:, m]
                    nrm, ok = leaf.normal(pts, tol=3e-5)
                    known[np.nonzero(m)[0][~ok]] = False
                    img[:, m] = shade(parameters(paint(leaf)), pts, np.asarray(nrm) * p.sign[id(leaf)], lights)
        return img.T.reshape(*self.shape, 4), known.reshape(self.shape)

    def edges(self):
        """(v x h bool, known)"""
        lab, amb = self.label.reshape(self.shape), self.amb.reshape(self.shape)
        lab = np.pad(lab, ((1, 0), (1, 0)), constant_values=-1)
        amb = np.pad(amb, ((1, 0), (1, 0)))
        sure = np.zeros(self.shape, dtype=bool)
        may = np.zeros(self.shape, dtype=bool)
        for a, b in ((lab[1:, :-1], amb[1:, :-1]), (lab[:-1, 1:], amb[:-1, 1:])):
            unknown = amb[1:, 1:] | b
            sure |= (lab[1:, 1:] != a) & ~unknown
            may |= (lab[1:, 1:] != a) | unknown
        r = max(1, int(max(self.shape) / 300))
        grow = lambda x: ndimage.maximum_filter(x.astype(np.uint8), size=2 * r + 1, mode="constant") > 0
        sure, may = grow(sure), grow(may)
        return sure, sure == may
