"""C23 - lane coordinates: progress, lateral offset and heading along a lane of known geometry."""
import math

import numpy as np
from commonroad.scenario.lanelet import Lanelet, LaneletNetwork
from geometry import SE2_from_translation_angle, translation_angle_from_SE2
from shapely.geometry import Polygon

from dg_commons import SE2Transform
from dg_commons.maps.lanes import DgLanelet, LaneCtrPoint

from .lanelib import PATHS, Path, paths, wrap

ASSUMPTIONS = ["lanes whose curvature stays well below 1/half width, poses within the lane's radius of curvature, where the closest point is unique",
               "closest points are found up to the tolerance asked for (1e-3 of the control point parameter)"]


def get(c, names, starts):
    start = c.pick(starts, "start")
    p = paths(*start)[c.pick(names, "lane")]
    return p


def curve(c, names, starts, steps):
    """the parametrization: length, centreline, radius, both conversions"""
    p = get(c, names, starts)
    lane = p.lane(wrapped=c.flag("wrapped"))
    n = len(p.q)
    ls = lane.get_lane_lengths()
    c.close(list(ls), [l for _, l in p.segs], "lengths", "segment lengths", tol=1e-7)
    c.close(lane.get_lane_length(), p.L, "length", "lane length", tol=1e-7)
    last = None
    ss = sorted({-7.0, -1.0, -0.05, p.L + 0.05, p.L + 1.0, p.L + 7.0} | set(p.s) | {s + d for s in p.s for d in (-3e-3, -1e-5, 1e-5, 3e-3)} | {p.s[i] + a * l for i, (_, l) in enumerate(p.segs) for a in steps})
    for s in ss:
        b = lane.beta_from_along_lane(s)
        c.step()
        c.compared(5)
        back = lane.along_lane_from_beta(b)
        c.close(back, s, "inverse", lambda: f"along_lane({b}) for {s}", tol=1e-7)
        c.check(last is None or b > last, "monotone", lambda: f"{s} m is at {b}, after {last}")
        last = b
        if 0 <= s <= p.L:
            i = p.index(s)
            c.close(b, i + (s - p.s[i]) / p.segs[i][1], "beta", f"parameter at {s}", tol=1e-7)
        x, y, th = p.pose(s)
        xy, ang = translation_angle_from_SE2(lane.center_point(b))
        c.close(xy, (x, y), "center", lambda: f"centre at {s} of {p.L}", tol=1e-6)
        c.check(abs(wrap(ang - th)) < 1e-6, "center-heading", lambda: f"heading {ang} at {s}, the lane's is {th}")
        c.close(lane.radius(b), p.radius(s), "radius", lambda: f"at {s}", tol=1e-7)
        f = lane.center_point_fast_SE2Transform(b)
        i = p.index(s)
        k, l = p.segs[i] if 0 <= s <= p.L else (0, 0)
        sag = 2 * (1 - math.cos(abs(k) * l / 2)) / abs(k) if k else 0.0
        c.check(np.linalg.norm(np.array(f.p) - (x, y)) <= sag + abs(k) * l * l / 8 + 1e-6, "fast-center", lambda: f"at {s}: {f}, exact {x, y}")
        c.check(abs(wrap(f.theta - th)) <= abs(k) * l + 1e-6, "fast-heading", lambda: f"heading {f.theta} at {s}, the lane's is {th}")
    for i in range(n):
        xy, ang = translation_angle_from_SE2(lane.center_point(i))
        c.close(xy, p.q[i][:2], "control-points", "", tol=1e-7)
    c.state((p.L, len(ss)))
    c.outcome(round(p.L, 3))


def position(c, names, starts, alongs, laterals, headings):
    """where a pose is in the lane"""
    p = get(c, names, starts)
    lane = p.lane()
    a = c.pick(alongs, "along")
    s = p.L * a if 0 <= a <= 1 else (a if a < 0 else p.L + (a - 1))
    d = c.pick(laterals, "lateral") * p.radius(s)
    if abs(d) * p.max_kappa() > 0.6:
        d = math.copysign(0.6 / p.max_kappa(), d)
    h = c.pick(headings, "heading")
    x, y = p.at(s, d)
    th = p.pose(s)[2] + h
    i = p.index(s)
    # the tolerance of the search is relative to the parameter
    tol = 2.5e-3 * (i + 2) * (max(l for _, l in p.segs) if 0 <= s <= p.L else 1.0) + 2.5e-3 * abs(s) + 0.01
    pose = lane.lane_pose_from_SE2Transform(SE2Transform([x, y], th))
    pose2 = lane.lane_pose_from_SE2_generic(SE2_from_translation_angle([x, y], th))
    c.step(2)
    c.compared(14)
    what = lambda: f"{s} of {p.L}, lateral {d} of {p.radius(s)}, heading {h}: {pose}"
    c.check(pose.along_lane == pose2.along_lane and pose.lateral == pose2.lateral, "same", what)
    c.check(abs(pose.along_lane - s) <= tol, "along", what)
    c.check(abs(pose.lateral - d) <= 0.01 + tol * p.max_kappa() * (abs(d) + 1), "lateral", what)
    c.check(abs(wrap(pose.relative_heading - h)) <= 0.01 + tol * p.max_kappa(), "heading", what)
    verdicts(c, pose, p, s, d, h, tol, what)
    c.check(np.linalg.norm(np.array(pose.center_point.p) - p.pose(s)[:2]) <= tol + 0.01, "center-point", what)
    # the same through positions only
    xy = np.array([x, y])
    for fast in (False, True):
        sag = p.max_kappa() * max(l for _, l in p.segs) ** 2 / 8 + abs(d) * p.max_kappa() * max(l for _, l in p.segs) if fast else 0.0
        got = lane.along_lane_from_T2value(xy, fast=fast)
        c.check(abs(got - s) <= tol + sag, "along-of-point", lambda: f"fast={fast}: {got}; {what()}")
    for fast in (False, True):  # the search itself, to the accuracy it has by default
        sag = p.max_kappa() * max(l for _, l in p.segs) ** 2 / 8 + abs(d) * p.max_kappa() * max(l for _, l in p.segs) if fast else 0.0
        b, q = (lane.find_along_lane_closest_point_fast if fast else lane.find_along_lane_closest_point)(xy)
        fine = 1e-4 * (i + 2) * (max(l for _, l in p.segs) if 0 <= s <= p.L else 1.0) + 1e-4 * abs(s) + 1e-3
        c.check(abs(lane.along_lane_from_beta(b) - s) <= fine + sag, "closest-point", lambda: f"fast={fast}: {b}; {what()}")
        at = translation_angle_from_SE2(lane.center_point_fast_SE2Transform(b).as_SE2() if fast else lane.center_point(b))
        c.close(translation_angle_from_SE2(q)[0], at[0], "closest-point-pose", what, tol=1e-9)
    sag = p.max_kappa() * max(l for _, l in p.segs) ** 2 / 8
    r = p.radius(s)
    if abs(abs(d) - r) > 0.02 + sag and min(abs(s), abs(s - p.L)) > tol:
        want = abs(d) < r and 0 < s < p.L
        c.check(bool(lane.is_inside_from_T2value(xy)) == want, "is-inside", what)
    c.state((round(s, 4), round(d, 4), h, p.q[0]))
    c.outcome((pose.inside, bool(pose.outside_left), bool(pose.outside_right), pose.along_before, pose.along_after))


def verdicts(c, pose, p, s, d, h, tol, what):
    r = p.radius(s)
    eps = 0.011 + tol * (p.max_kappa() * (abs(d) + 1) + (max(p.r) - min(p.r)) / min(l for _, l in p.segs))
    c.check(abs(pose.lateral_left - r) <= eps and abs(pose.lateral_right + r) <= eps, "boundaries", what)
    c.check(abs(pose.distance_from_center - abs(d)) <= eps and abs(pose.distance_from_left - abs(r - d)) <= 2 * eps
            and abs(pose.distance_from_right - abs(r + d)) <= 2 * eps, "distances", what)
    lat_known = abs(abs(d) - r) > 2 * eps
    lon_known = min(abs(s), abs(s - p.L)) > tol
    if lat_known:
        c.check((bool(pose.lateral_inside), bool(pose.outside_left), bool(pose.outside_right)) == (abs(d) < r, d > r, d < -r), "lateral-flags", what)
    if lon_known:
        c.check((pose.along_inside, pose.along_before, pose.along_after) == (0 < s < p.L, s < 0, s > p.L), "along-flags", what)
    if lat_known and lon_known:
        c.check(bool(pose.inside) == (abs(d) < r and 0 < s < p.L), "inside", what)
    if abs(abs(wrap(h)) - math.pi / 2) > 0.05:
        c.check(bool(pose.correct_direction) == (abs(wrap(h)) < math.pi / 2), "direction", what)


def stated(c, names, starts, alongs, laterals, headings):
    """a pose given in lane coordinates, without search"""
    p = get(c, names, starts)
    lane = p.lane()
    a = c.pick(alongs, "along")
    s = p.L * a if 0 <= a <= 1 else (a if a < 0 else p.L + (a - 1))
    d = c.pick(laterals, "lateral") * p.radius(s)
    h = c.pick(headings, "heading")
    pose = lane.lane_pose(along_lane=s, relative_heading=h, lateral=d)
    c.step()
    c.compared(10)
    what = lambda: f"{s} of {p.L}, lateral {d} of {p.radius(s)}, heading {h}: {pose}"
    c.check((pose.along_lane, pose.lateral, pose.relative_heading) == (s, d, h), "stated", what)
    verdicts(c, pose, p, s, d, h, 1e-6, what)
    c.close(pose.center_point.p, p.pose(s)[:2], "center-point", what, tol=1e-6)
    c.state((round(s, 4), round(d, 4), h, p.q[0]))
    c.outcome((bool(pose.inside), bool(pose.correct_direction)))


def building(c, names, starts, per):
    """from the vertices of a lanelet; the profile"""
    p = get(c, names, starts)
    l, r, m = p.vertices()
    if c.flag("centre off the middle"):
        shift = 0.2 * (l - r)
        cps = DgLanelet.from_vertices(left_vertices=l, right_vertices=r, center_vertices=m + shift).get_control_points()
        c.check(len(cps) == len(p.q), "count", str(len(cps)))
        for cp, q, th, rad in zip(cps, m + shift, p.q, p.r):
            c.compared(3)
            c.close(cp.q.p, q, "point", "", tol=1e-9)
            c.check(abs(wrap(cp.q.theta - th[2])) < 1e-7, "theta", lambda: f"{cp} expected {th}")
            c.close(cp.r, rad, "half-width", "the centre is not in the middle", tol=1e-9)
        c.step()
        c.state((p.L, p.q[0], "off"))
        return
    if c.flag("commonroad"):
        lane = DgLanelet.from_commonroad_lanelet(Lanelet(l, m, r, 1))
    else:
        lane = DgLanelet.from_vertices(left_vertices=l, right_vertices=r, center_vertices=m)
    cps = lane.get_control_points()
    c.check(len(cps) == len(p.q), "count", str(len(cps)))
    for cp, (x, y, th), rad in zip(cps, p.q, p.r):
        c.compared(3)
        c.close(cp.q.p, (x, y), "point", "", tol=1e-9)
        c.check(abs(wrap(cp.q.theta - th)) < 1e-7, "theta", lambda: f"{cp} expected {th}")
        c.close(cp.r, rad, "half-width", "", tol=1e-9)
    k = c.pick(per, "points per segment")
    prof = lane.lane_profile(points_per_segment=k)
    nseg = len(p.segs)
    c.check(len(prof) == 2 * nseg * k, "profile-size", lambda: f"{len(prof)} points")
    half = nseg * k
    betas = np.linspace(0, nseg, num=half)
    for j, b in enumerate(betas):
        i = min(int(b), nseg - 1)
        s = p.s[i] + (b - i) * p.segs[i][1]
        rad = p.radius(s)
        c.compared(2)
        c.close(prof[j], p.at(s, -rad), "profile-right", f"{j}", tol=1e-6)
        c.close(prof[2 * half - 1 - j], p.at(s, rad), "profile-left", f"{j}", tol=1e-6)
    if half >= 2:
        poly = Polygon([tuple(q) for q in prof])
        c.check(poly.is_valid, "profile-valid", "the lane's profile is not a simple polygon")
    c.step()
    c.state((p.L, p.q[0], k))
    c.outcome(len(prof))


def lookup(c, depth):
    """which lanelet a point is on, point by point, in changing networks"""
    for j in range(depth):
        ys = c.pick([(0.0, 4.0), (4.0, 0.0), (0.0, 4.0, 8.0)], f"network{j}")
        mk = lambda i, y: Lanelet(*(np.array([[0.0, y + o], [10.0, y + o], [20.0, y + o]]) for o in (2.0, 0.0, -2.0)), 10 + i)
        net = LaneletNetwork.create_from_lanelet_list([mk(i, y) for i, y in enumerate(ys)])
        pts = c.pick([[(1.0, 0.3)], [(5.0, 4.4), (5.0, -0.4)], [(5.0, -0.4), (15.0, 4.4), (7.0, 5.0)]], f"points{j}")
        call = DgLanelet.get_lanelets if c.flag(f"static{j}") else paths()["one"].lane().get_lanelets
        got = call(net, [np.array(q) for q in pts])
        want = [10 + min(range(len(ys)), key=lambda i: abs(ys[i] - q[1])) for q in pts]
        c.step()
        c.compared(len(pts))
        c.check([g.lanelet_id for g in got] == want, "lookup", lambda: f"{pts} in {ys}: {got}")
    c.state(tuple(want))
    c.outcome(len(want))


def similar(name):
    """lanes that have as many control points, and share the first and the last or all of them"""
    R = 25.0
    a = math.asin(5.0 / R)
    if name == "straight":
        return Path(0, 0, 0, [(0, [5.0, 5.0])], [2.0])
    if name == "wide":
        return Path(0, 0, 0, [(0, [5.0, 5.0])], [3.0])
    if name == "uneven":
        return Path(0, 0, 0, [(0, [2.0, 8.0])], [2.0])
    k = 1 if name == "below" else -1
    return Path(0, 0, -k * a, [(k / R, [a * R, a * R])], [2.0])


def one_by_one(c, depth, names, alongs):
    """several lanes that resemble each other are used in turns"""
    ps = {n: similar(n) for n in names}
    lanes = {}
    hist = []
    for j in range(depth):
        n = c.pick(names, f"lane{j}")
        p = ps[n]
        if n not in lanes or c.flag(f"anew{j}"):
            lst = [LaneCtrPoint(SE2Transform([x, y], th), r=r) for (x, y, th), r in zip(p.q, p.r)]
            lanes[n] = DgLanelet(lst)
            lst.append(LaneCtrPoint(SE2Transform([100.0, 0.0], 0.0), r=1.0))  # the caller goes on with its list
        lane = lanes[n]
        what = c.choose(4, f"what{j}")
        hist.append((n, what))
        say = lambda: f"{hist}"
        c.step()
        c.compared(3)
        if what == 0:
            c.close(list(lane.get_lane_lengths()), [l for _, l in p.segs], "lengths", say, tol=1e-7)
            c.close(lane.get_lane_length(), p.L, "length", say, tol=1e-7)
            continue
        for a in alongs:
            s = a * p.L
            x, y, th = p.pose(s)
            b = lane.beta_from_along_lane(s)
            if what == 1:
                c.close(translation_angle_from_SE2(lane.center_point(b))[0], (x, y), "center", say, tol=1e-6)
                c.close(lane.radius(b), p.radius(s), "radius", say, tol=1e-7)
            elif what == 2:
                q = p.at(s, 0.5)
                got = lane.lane_pose_from_SE2Transform(SE2Transform(list(q), th))
                c.check(abs(got.along_lane - s) < 0.1 and abs(got.lateral - 0.5) < 0.05 and abs(got.lateral_left - p.radius(s)) < 0.02,
                        "along", lambda: f"{s}: {got} {hist}")
            else:
                prof = lane.lane_profile(points_per_segment=2)
                c.close(prof[0], p.at(0, -p.r[0]), "profile-right", say, tol=1e-6)
                c.close(prof[-1], p.at(0, p.r[0]), "profile-left", say, tol=1e-6)
                c.close(prof[4], p.at(p.L, p.r[-1]), "profile-left", say, tol=1e-6)
    c.state(tuple(hist))
    c.outcome(len(lanes))


STARTS = [(1.0, -2.0, 0.3), (0.0, 0.0, 3.0), (-50.0, 20.0, -2.9), (5.0, 5.0, math.pi / 2)]
ALONG = [-6.0, -2.0, -0.5, 0.0, 0.03, 0.2, 0.37, 0.5, 0.66, 0.9, 1.0, 1.5, 4.0]
HARNESSES = [
    dict(name="curve", body=curve, space="lane x placement x positions along it and beyond",
         quick=dict(names=PATHS, starts=STARTS, steps=[0.01, 0.33, 0.9]),
         thorough=dict(names=PATHS, starts=STARTS + [(0, 0, k * 0.5) for k in range(-6, 7)], steps=[0.001, 0.01, 0.1, 0.33, 0.5, 0.75, 0.9, 0.999])),
    dict(name="position", body=position, space="lane x placement x position along x lateral x heading",
         quick=dict(names=PATHS, starts=STARTS, alongs=ALONG, laterals=[0.0, 0.5, -0.9, 1.4, -1.6], headings=[0.0, 0.6, -2.5]),
         thorough=dict(names=PATHS, starts=STARTS, alongs=ALONG + [-15.0, 0.1, 0.45, 0.8, 13.0], laterals=[0.0, 0.2, -0.5, 0.9, -0.9, 1.4, -1.6, 2.2],
                       headings=[0.0, 0.6, 1.5, -1.6, -2.5, 3.0])),
    dict(name="stated", body=stated, space="lane x position along x lateral x heading",
         quick=dict(names=PATHS, starts=STARTS[:2], alongs=ALONG, laterals=[0.0, 0.5, -0.9, 1.4, -1.6], headings=[0.0, 1.5, 1.65, -2.5]),
         thorough=dict(names=PATHS, starts=STARTS, alongs=ALONG + [-15.0, 0.1, 0.45, 0.8, 13.0], laterals=[0.0, 0.5, -0.9, 0.99, -1.01, 1.4, -1.6],
                       headings=[0.0, 1.5, 1.65, -2.5])),
    dict(name="building", body=building, space="lane x placement x construction x resolution",
         quick=dict(names=PATHS, starts=STARTS, per=[1, 3, 5]), thorough=dict(names=PATHS, starts=STARTS, per=[1, 2, 3, 5, 8])),
    dict(name="one_by_one", body=one_by_one, space="histories of questions to lanes that resemble each other",
         quick=dict(depth=2, names=["straight", "wide", "uneven", "below", "above"], alongs=[0.2, 0.7]),
         thorough=dict(depth=3, names=["straight", "wide", "uneven", "below", "above"], alongs=[0.2, 0.7])),
    dict(name="lookup", body=lookup, space="histories of look-ups in changing networks", quick=dict(depth=2), thorough=dict(depth=3)),
]
