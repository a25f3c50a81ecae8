"""Line of sight reference (shapely only), and a stand-in for the collision library's polygons.

The installed collision library is built without its polygon triangulation back end: its Polygon cannot be constructed
in this sandbox.  The stand-in builds the same convex outline out of the library's own triangles."""
from __future__ import annotations

import math
import sys

import numpy as np
from commonroad_dc import pycrcc
from shapely.geometry import LineString, Point, Polygon
from shapely.ops import triangulate

import dg_commons.geo  # noqa: F401 (before install)


def _as_triangles(vertices, holes):
    poly = Polygon(vertices)
    g = pycrcc.ShapeGroup()
    if poly.convex_hull.area - poly.area < 1e-9:
        v = np.array(vertices, dtype=float)
        tris = [(v[0], v[i], v[i + 1]) for i in range(1, len(v) - 1)]
    else:
        tris = [list(t.exterior.coords)[:3] for t in triangulate(poly) if poly.contains(t.centroid)]
    for a, b, d in tris:
        g.add_shape(pycrcc.Triangle(a[0], a[1], b[0], b[1], d[0], d[1]))
    return g


class TriangulatedPolygon(pycrcc.ShapeGroup):
    def __new__(cls, vertices, holes=(), *args):
        return _as_triangles(vertices, holes)


def install():
    """wherever the library (or a module of it) refers to the unavailable polygon"""
    old, pycrcc.Polygon = pycrcc.Polygon, TriangulatedPolygon
    for name, mod in list(sys.modules.items()):
        if name.split(".")[0] == "dg_commons":
            for k, v in list(vars(mod).items()):
                if v is old:
                    setattr(mod, k, TriangulatedPolygon)


def first_hits(p, rng, blockers, n):
    """distance to the first blocker along n equally spaced directions"""
    out = np.full(n, float(rng))
    prepared = list(blockers)
    for i in range(n):
        th = 2 * math.pi * i / n
        ray = LineString([p, (p[0] + rng * math.cos(th), p[1] + rng * math.sin(th))])
        for b in prepared:
            x = ray.intersection(b)
            if not x.is_empty:
                out[i] = min(out[i], Point(p).distance(x))
    return out


def window(d, k, fn):
    """fn over every +-k neighbourhood (circular)"""
    return fn(np.stack([np.roll(d, s) for s in range(-k, k + 1)]), axis=0)


def angles_in(n, theta, fov, margin):
    """which of the n directions are inside of the field of view, enlarged by margin"""
    a = 2 * math.pi * np.arange(n) / n
    diff = np.abs((a - theta + math.pi) % (2 * math.pi) - math.pi)
    return diff <= fov / 2 + margin


def radial(p, d, inside=None):
    n = len(d)
    pts = [(p[0] + d[i] * math.cos(2 * math.pi * i / n), p[1] + d[i] * math.sin(2 * math.pi * i / n)) for i in range(n)]
    if inside is not None and not inside.all():
        # contiguous circular run
        k0 = next(i for i in range(n) if inside[i] and not inside[i - 1])
        run = []
        k = k0
        while inside[k % n] and len(run) < n:
            run.append(k % n)
            k += 1
        if len(run) < 2:
            return Polygon()
        return Polygon([tuple(p)] + [pts[k] for k in run]).buffer(0)
    return Polygon(pts).buffer(0)
