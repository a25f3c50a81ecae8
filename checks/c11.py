"""C11 - a line-of-sight sensor sees exactly what is in its range, in its field of view and not behind something."""
import math

import numpy as np
from commonroad_dc import pycrcc
from shapely import affinity
from shapely.geometry import LinearRing, LineString, Point, Polygon, box

from dg_commons import SE2Transform
import dg_commons.geo as geo
from dg_commons.perception.sensor import FullRangeSensor, VisRangeSensor

from . import vislib
from .vislib import angles_in, first_hits, radial, window

vislib.install()
ASSUMPTIONS = ["tolerance: one ray spacing of the sensor in angle, 2 cm in distance",
               "the collision library's polygons are replaced with its own triangles (its polygon back end is absent)"]

OBST = {
    "wall": lambda r: box(0.5 * r, -0.4 * r, 0.5 * r + 0.6, 0.3 * r),
    "post": lambda r: Point(0.35 * r, 0.1 * r).buffer(0.09 * r + 0.15, quad_segs=5),
    "line": lambda r: LineString([(-0.3 * r, 0.6 * r), (0.2 * r, 0.45 * r), (0.5 * r, 0.5 * r)]),
    "behind": lambda r: box(-0.6 * r, -0.5 * r, -0.5 * r, 0.2 * r),
    "far": lambda r: box(1.2 * r, -r, 1.5 * r, r),
    "tri": lambda r: Polygon([(0.7 * r, 0.1 * r), (0.85 * r, 0.4 * r), (0.6 * r, 0.5 * r)]),
    "fence": lambda r: LineString([(0.7 * r, -0.6 * r), (0.5 * r, -0.3 * r), (0.6 * r, -0.05 * r), (0.45 * r, 0.2 * r), (0.55 * r, 0.4 * r), (0.3 * r, 0.6 * r), (-0.1 * r, 0.7 * r), (-0.3 * r, 0.5 * r)]),
    "hoop": lambda r: LinearRing([(-0.7 * r, -0.3 * r), (-0.4 * r, -0.6 * r), (-0.3 * r, -0.2 * r), (-0.35 * r, 0.2 * r), (-0.6 * r, 0.3 * r)]),
    "near": lambda r: box(-0.2 * r, -0.25 * r, 0.25 * r, -0.15 * r),
}


def body(c, ranges, fovs, poses, sets):
    r, fov = c.pick(ranges, "range"), c.pick(fovs, "field_of_view")
    p, th = c.pick(poses, "pose")
    names = c.pick(sets, "obstacles")
    shapes = [affinity.translate(affinity.rotate(OBST[n](r), th if i % 2 else 0.0, origin=(0, 0), use_radians=True), *p)
              for i, n in enumerate(names)]
    cr = [x for s in shapes for x in geo.shapely2crPolygons(s)]
    s = VisRangeSensor(range=r, field_of_view=fov)
    s.pose = SE2Transform(p, th)
    view = s.fov_as_polygon(cr)
    again = s.fov_as_polygon(cr)
    c.check(view.equals(again), "repeatable", "asking twice gives two answers")
    if not view.is_valid:
        view = view.buffer(0)
    res = math.atan(1 / r)
    n = max(180, int(8 * 2 * math.pi / res))
    k = math.ceil(1.15 * res / (2 * math.pi / n))
    d = first_hits(p, r, shapes, n)
    full = fov >= 2 * math.pi - res
    inner_in = angles_in(n, th, fov, -1.2 * res) if not full else np.ones(n, bool)
    outer_in = angles_in(n, th, fov, 1.2 * res) if not full else np.ones(n, bool)
    if full and fov < 2 * math.pi:
        inner_in = angles_in(n, th, fov, -1.2 * res)
    outer = radial(p, window(d, k, np.max), outer_in).buffer(0.02)
    dmin = window(d, k, np.min) * math.cos(0.75 * res) - 0.02
    inner = radial(p, np.maximum(dmin, 0.0), inner_in).buffer(-1e-3)
    c.compared(2)
    c.step(n)
    miss = inner.difference(view.buffer(1e-6)).area
    c.check(miss < 1e-4 * max(1.0, inner.area), "misses",
            lambda: f"{miss:.4f} m2 in plain sight are not in the view polygon: range {r} fov {fov:.3f} pose {p},{th} {names}")
    extra = view.difference(outer).area
    c.check(extra < 1e-4 * max(1.0, outer.area), "sees-through",
            lambda: f"{extra:.4f} m2 of the view polygon are hidden or out of range: range {r} fov {fov:.3f} "
                    f"pose {p},{th} {names}")
    c.count("blocked" if d.min() < r else "free")
    c.maximum("view_area", view.area)
    c.state((r, fov, p, th, names))
    c.outcome(round(view.area, 4))


def used_before(c, depth):
    """what a sensor sees does not depend on where it was used before and on what it saw there"""
    r, fov = c.pick([4.0, 30.0], "range"), c.pick([2 * math.pi, 2.0], "field_of_view")
    s = VisRangeSensor(range=r, field_of_view=fov)
    for k in range(depth):
        p, th = c.pick([((0.0, 0.0), 0.0), ((0.0, 0.0), 2.1), ((13.0, -7.0), 2.1)], f"pose{k}")
        names = c.pick([(), ("wall",), ("post", "behind")], f"obstacles{k}")
        cr = [x for n in names for x in geo.shapely2crPolygons(affinity.translate(OBST[n](r), *p))]
        fresh = VisRangeSensor(range=r, field_of_view=fov)
        s.pose, fresh.pose = SE2Transform(p, th), SE2Transform(p, th)
        got, want = s.fov_as_polygon(cr), fresh.fov_as_polygon(cr)
        c.check(list(got.exterior.coords) == list(want.exterior.coords), "used-before",
                lambda: f"use {k} of a sensor gives an area of {got.area}, a new one {want.area}")
        c.step()
    c.compared(depth)
    c.state((r, fov, k))
    c.outcome((names, p, th))


def full_range(c, ranges, poses):
    """the all-seeing sensor: a disc, whatever stands in the way"""
    r = c.pick(ranges, "range")
    p, th = c.pick(poses, "pose")
    s = FullRangeSensor(range=r)
    s.pose = SE2Transform(p, th)
    obst = geo.shapely2crPolygons(affinity.translate(OBST["wall"](r), *p)) if c.flag("obstacle") else []
    v = s.fov_as_polygon(obst)
    c.check(v.buffer(1e-9).contains(Point(p).buffer(r * 0.99)), "disc", "the view does not contain the disc")
    c.check(Point(p).buffer(r * 1.001, quad_segs=64).contains(v), "disc", "the view reaches beyond the range")
    c.compared(2)
    c.state((r, p, th))
    c.outcome(round(v.area, 6))


POSES = [((0.0, 0.0), 0.0), ((13.0, -7.0), 1.1), ((-4.0, 2.5), -2.6), ((1.0, 1.0), 3.0)]
SETS = [(), ("wall",), ("post", "far"), ("line", "behind"), ("wall", "tri"), ("near", "post", "tri"), ("behind", "wall"),
        ("line", "near", "far"), ("fence", "hoop")]
HARNESSES = [
    dict(name="visible_range", body=body, space="range x field of view x pose x set of obstacles",
         quick=dict(ranges=[3.0, 8.0], fovs=[2 * math.pi, math.pi / 2, 4.0], poses=POSES[:3], sets=SETS),
         thorough=dict(ranges=[1.0, 3.0, 8.0, 20.0], fovs=[2 * math.pi, 2 * math.pi - 0.3, math.pi, math.pi / 2, 4.0, 0.8],
                       poses=POSES, sets=SETS + [("wall", "post", "line", "behind", "tri", "near"), ("tri",), ("near",)])),
    dict(name="far_reaching", body=body, space="as visible_range, with a long range",
         quick=dict(ranges=[45.0], fovs=[math.pi / 2, 2 * math.pi], poses=POSES[1:2], sets=[(), ("wall", "tri"), ("post", "far")]),
         thorough=dict(ranges=[45.0, 80.0], fovs=[2 * math.pi, math.pi / 2], poses=POSES[1:3],
                       sets=[(), ("wall", "tri"), ("post", "far"), ("line", "behind")])),
    dict(name="used_before", body=used_before, space="all sequences of uses of one sensor: pose x obstacles",
         quick=dict(depth=2), thorough=dict(depth=3)),
    dict(name="full_range", body=full_range, space="range x pose x obstacle",
         quick=dict(ranges=[1.0, 20.0, 50.0], poses=POSES), thorough=dict(ranges=[0.5, 1.0, 5.0, 20.0, 50.0], poses=POSES)),
]
