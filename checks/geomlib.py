"""Geometry references, written from the documentation only."""
from __future__ import annotations

import math

import numpy as np
from shapely import affinity
from shapely.geometry import LinearRing, LineString, Point, Polygon, box

DIAMOND = Polygon([(1.0, 0.0), (0.0, 1.0), (-1.0, 0.0), (0.0, -1.0)])
BOX = box(-1.6, -0.7, 1.6, 0.7)
HEXAGON = Polygon([(math.cos(k * math.pi / 3 + 0.2) * 0.9, math.sin(k * math.pi / 3 + 0.2) * 0.9) for k in range(6)])
ROD = box(-2.0, -0.15, 2.0, 0.15)
TRIANGLE = Polygon([(1.2, 0.05), (-0.8, 0.9), (-0.7, -0.75)])
LSHAPE = Polygon([(-1, -1), (1.3, -1), (1.3, -0.2), (0.1, -0.2), (0.1, 1.2), (-1, 1.2)])
CIRCLE = Point(0, 0).buffer(0.8, quad_segs=4)
SMALL = Polygon([(0.11, 0.02), (-0.03, 0.12), (-0.09, -0.08)])
SHAPES = dict(diamond=DIAMOND, box=BOX, hexagon=HEXAGON, rod=ROD, triangle=TRIANGLE, lshape=LSHAPE, circle=CIRCLE,
              small=SMALL)


def place(shape, x, y, psi=0.0):
    return affinity.translate(affinity.rotate(shape, psi, origin=(0, 0), use_radians=True), x, y)


def _outline(g):
    return g.exterior if isinstance(g, Polygon) else g


def _near_degenerate(a, b, tol=1e-7):
    """a vertex of one lies on the outline of the other, or nearly"""
    oa, ob = _outline(a), _outline(b)
    return any(ob.distance(Point(p)) < tol for p in oa.coords) or any(oa.distance(Point(p)) < tol for p in ob.coords)


def contact(a: Polygon, b):
    """What the documentation defines for two bodies: ('none',) they do not overlap; ('contact', normal, point);
    ('undefined',) they do overlap but no impact geometry exists; ('unspecified',) degenerate configurations"""
    if not a.intersects(b):
        return ("none",) if a.distance(b) > 1e-9 else ("unspecified",)
    if a.touches(b):
        return ("none",)
    if _near_degenerate(a, b):
        return ("unspecified",)
    ca = np.array(a.centroid.coords[0])
    if a.contains(b):
        r = np.array(b.centroid.coords[0]) - ca
        n = np.linalg.norm(r)
        if n < 1e-9:
            return ("undefined",)
        if n < 1e-6:
            return ("unspecified",)
        return ("contact", r / n, np.array(b.centroid.coords[0]))
    if isinstance(b, Polygon) and b.contains(a):
        return ("undefined",)
    cross = _outline(a).intersection(_outline(b))
    pts = [np.array(g.coords[0]) for g in getattr(cross, "geoms", [cross]) if isinstance(g, Point)]
    if len(pts) == 1 and not isinstance(b, Polygon):
        return ("undefined",)  # a line that ends inside of the body
    if len(pts) != 2 or len(pts) != len(getattr(cross, "geoms", [cross])):
        return ("unspecified",)
    t = pts[1] - pts[0]
    if np.linalg.norm(t) < 1e-6:
        return ("unspecified",)
    n = np.array([-t[1], t[0]]) / np.linalg.norm(t)
    p = (pts[0] + pts[1]) / 2
    s = float(n @ (p - ca))
    if abs(s) < 1e-6:
        return ("unspecified",)
    return ("contact", n if s > 0 else -n, p)


def cross2(r, v):
    return r[0] * v[1] - r[1] * v[0]


def vel_at(v, w, r):
    return np.array([v[0] - w * r[1], v[1] + w * r[0]])


def differ(a, b):
    """area by which two polygons differ; the overlay of outlines that agree up to rounding is not reliable"""
    rings = lambda g: [g.exterior, *g.interiors]
    if isinstance(a, Polygon) and isinstance(b, Polygon) and not a.is_empty and not b.is_empty and len(a.interiors) == len(b.interiors):
        d = max(max(p.hausdorff_distance(q) for p, q in zip(rings(a), rings(b))), 0.0)
        if d < 1e-6:
            return d * max(a.length, b.length)
    return max(a.symmetric_difference(b).area, abs(a.area - b.area))
