"""C24 - goals: fulfilled exactly in their region; what is plotted is that region."""
import math
from copy import deepcopy
from decimal import Decimal as D

import numpy as np
from shapely.geometry import LineString, Point, Polygon, box

from dg_commons import SE2Transform
from dg_commons.sim.goals import PlanningGoal, PolygonGoal, PoseGoal, RefLaneGoal

from .geomlib import differ
from .lanelib import PATHS, paths, wrap
from .modellib import KINDS

ASSUMPTIONS = ["points within 3 cm (plus the tolerance of the lane search) of the border of a goal's region may count or not"]
TIMES = [0, D("1.5"), 3.0]


def state(kind, x, y, psi):
    return KINDS[kind].model(x, y, psi).get_state()


def both(c, goal, s, want, key, what):
    """the verdict does not depend on when, how often, or on which copy it is asked"""
    got = [bool(goal.is_fulfilled(s)), bool(goal.is_fulfilled(s, at=c.pick(TIMES, "at"))), bool(deepcopy(goal).is_fulfilled(s))]
    c.step(3)
    c.compared(3)
    c.check(got[0] == got[1] == got[2], key + "-stable", lambda: f"{got}: {what()}")
    if want is not None:
        c.check(got[0] == want, key, lambda: f"fulfilled: {got[0]}, should be {want}: {what()}")
    c.state((key, str(s)))
    c.outcome((key, got[0]))


def ref_lane(c, names, starts, progress, offs, laterals, kinds):
    p = paths(*c.pick(starts, "start"))[c.pick(names, "lane")]
    g = c.pick(progress, "progress")
    g = p.L * g if g <= 1 else p.L + (g - 1)
    goal = RefLaneGoal(ref_lane=p.lane(), goal_progress=g)
    s = g + c.pick(offs, "off")
    d = c.pick(laterals, "lateral") * p.radius(g)
    if abs(d) * p.max_kappa() > 0.6:
        d = math.copysign(0.6 / p.max_kappa(), d)
    x, y = p.at(s, d)
    gate = LineString([p.at(g, p.radius(g)), p.at(g, -p.radius(g))])
    dist = gate.distance(Point(x, y))
    tol = 2.5e-3 * (p.index(g) + 2) * (max(l for _, l in p.segs) if 0 <= s <= p.L else 1.0) + 2.5e-3 * abs(s) + 0.01
    what = lambda: f"goal at {g} of {p.L}, state at {s}, lateral {d} of {p.radius(g)}"
    want = None
    if dist > 1.03:
        want = False
    elif s < g - tol:
        want = False
    elif dist < 0.97 and s > g + tol:
        want = True
    kind = c.pick(kinds, "state")
    both(c, goal, state(kind, x, y, p.pose(s)[2] + 0.3), want, "ref-lane", what)
    geo = goal.get_plottable_geometry()
    c.check(differ(geo, gate.buffer(1)) < 0.02, "ref-lane-plot", what)
    c.check(goal.is_static is True, "static", "")


POLYS = {"box": box(2, -1, 5, 3), "tri": Polygon([(0, 0), (4, 1), (1, 5)]), "hole": Polygon([(0, 0), (6, 0), (6, 6), (0, 6)], [[(2, 2), (4, 2), (4, 4), (2, 4)]]),
         "concave": Polygon([(0, 0), (6, 0), (6, 2), (2, 2), (2, 5), (0, 5)])}


def polygon(c, polys, grid, kinds):
    name = c.pick(polys, "polygon")
    poly = POLYS[name]
    goal = PolygonGoal(poly)
    x, y = c.pick(grid, "x"), c.pick(grid, "y")
    want = poly.buffer(-0.03).contains(Point(x, y))
    if not want and poly.distance(Point(x, y)) < 0.03:
        want = None
    both(c, goal, state(c.pick(kinds, "state"), x, y, 0.7), want, "polygon", lambda: f"{x, y} in {name}")
    c.check(goal.get_plottable_geometry().equals(poly) and goal.get_plottable_geometry(at=D(3)).equals(poly), "polygon-plot", name)


def lane_end(c, names, starts, offs, laterals, infl):
    """the polygon at the end of a lane"""
    p = paths(*c.pick(starts, "start"))[c.pick(names, "lane")]
    k = c.pick(infl, "inflation")
    goal = PolygonGoal.from_DgLanelet(p.lane(), inflation_radius=k) if k is not None else PolygonGoal.from_DgLanelet(p.lane())
    k = 1 if k is None else k
    s = p.L + c.pick(offs, "off")
    d = c.pick(laterals, "lateral") * p.radius(p.L)
    x, y = p.at(s, d)
    dist = LineString([p.at(p.L, p.radius(p.L)), p.at(p.L, -p.radius(p.L))]).distance(Point(x, y))
    want = True if dist < k - 0.15 else False if dist > k + 0.15 else None
    both(c, goal, state("car", x, y, p.pose(s)[2]), want, "lane-end", lambda: f"{s} of {p.L}, lateral {d} of {p.radius(p.L)}, inflation {k}")


def pose(c, poses, offs, angs, tols, kinds):
    x, y, th = c.pick(poses, "pose")
    tol = c.pick(tols, "tol")
    goal = PoseGoal(SE2Transform([x, y], th), tol=tol) if tol is not None else PoseGoal(SE2Transform([x, y], th))
    tol = 1e-7 if tol is None else tol
    dx, dy = c.pick(offs, "off")
    da = c.pick(angs, "turn")
    # Frobenius distance of the two poses: positions and both rotations
    dist = math.sqrt(dx * dx + dy * dy + 4 * (1 - math.cos(da)))
    want = None if abs(dist - tol) < 1e-9 + 1e-3 * tol else dist < tol
    kind = c.pick(kinds, "state")
    both(c, goal, state(kind, x + dx, y + dy, th + da), want, "pose", lambda: f"off by {dx, dy, da}, tolerance {tol}")
    geo = goal.get_plottable_geometry(at=1)
    rel = np.array([[math.cos(th), math.sin(th)], [-math.sin(th), math.cos(th)]]) @ (np.array(geo.centroid.coords[0]) - (x, y))
    c.check(isinstance(geo, Polygon) and abs(rel[1]) < 1e-6 and 0 < rel[0] < 1 and geo.distance(Point(x, y)) < 1e-6, "pose-plot", lambda: f"{geo} for {x, y, th}")


def history(c, depth, kinds):
    """one goal is asked about states of all sorts, one after the other; so is another goal of its kind"""
    lane, lane2 = paths()["straight"], paths()["left"]
    kind = c.pick(("ref-lane", "polygon", "pose", "lane-end"), "goal")
    if kind == "ref-lane":
        goals = [RefLaneGoal(ref_lane=p.lane(), goal_progress=p.L / 2) for p in (lane, lane2)]
        spots = [[(*p.at(p.L / 2 + 0.5, 0.2), p.pose(p.L / 2)[2], True), (*p.at(p.L / 2 - 0.5, 0.2), p.pose(p.L / 2)[2], False),
                  (*p.at(p.L / 2 + 3, 0), 0.0, False), (*p.at(p.L / 2 + 0.5, 3.6), 0.0, False)] for p in (lane, lane2)]
    elif kind == "polygon":
        goals = [PolygonGoal(POLYS["box"]), PolygonGoal(POLYS["hole"])]
        spots = [[(3.0, 0.0, 0.0, True), (3.0, 4.0, 0.0, False), (1.0, 1.0, 0.0, False)], [(1.0, 1.0, 0.0, True), (3.0, 3.0, 0.0, False), (5.0, 5.0, 1.0, True)]]
    elif kind == "pose":
        goals = [PoseGoal(SE2Transform([1.0, 2.0], 0.4), tol=0.3), PoseGoal(SE2Transform([1.0, 2.0], 2.4), tol=0.3)]
        spots = [[(1.1, 2.0, 0.4, True), (1.1, 2.0, 2.4, False), (3.0, 2.0, 0.4, False)], [(1.1, 2.0, 2.4, True), (1.1, 2.0, 0.4, False), (3.0, 2.0, 2.4, False)]]
    else:
        goals = [PolygonGoal.from_DgLanelet(p.lane()) for p in (lane, lane2)]
        spots = [[(*p.at(p.L + 0.3, 0.2), 0.0, True), (*p.at(p.L - 2, 0.2), 0.0, False), (*p.at(p.L / 2, 0), 0.0, False)] for p in (lane, lane2)]
    said = []
    for j in range(depth):
        g = c.choose(2, f"which{j}")
        x, y, th, want = c.pick(spots[g], f"spot{j}")
        s = state(c.pick(kinds, f"state{j}"), x, y, th)
        got = bool(goals[g].is_fulfilled(s, at=c.pick(TIMES[:2], f"at{j}")))
        said.append((g, round(float(x), 2), round(float(y), 2), want, got))
        c.step()
        c.compared()
        c.check(got == want, "history", lambda: f"{kind}: {said}")
    c.state((kind, tuple(said)))
    c.outcome((kind, tuple(q[4] for q in said)))


STARTS = [(1.0, -2.0, 0.3), (-50.0, 20.0, -2.9), (0.0, 0.0, 3.0)]
ALL = list(KINDS)
HARNESSES = [
    dict(name="ref_lane", body=ref_lane, space="lane x progress of the goal x position of the state x time x type of state",
         quick=dict(names=PATHS, starts=STARTS[:2], progress=[0.0, 0.1, 0.5, 0.83, 1.0], offs=[-3.0, -0.8, -0.2, 0.2, 0.85, 1.2, 4.0],
                    laterals=[0.0, 0.6, -0.95, 1.3, -2.0], kinds=["car"]),
         thorough=dict(names=PATHS, starts=STARTS, progress=[0.0, 0.1, 0.3, 0.5, 0.83, 1.0, 2.0], offs=[-8.0, -3.0, -0.8, -0.2, 0.2, 0.5, 0.85, 1.2, 4.0],
                       laterals=[0.0, 0.6, -0.95, 1.3, -1.3, -2.0], kinds=["car", "pedestrian"])),
    dict(name="history", body=history, space="sequences of questions to two goals of a kind",
         quick=dict(depth=3, kinds=["car"]), thorough=dict(depth=3, kinds=["car", "pedestrian"])),
    dict(name="polygon", body=polygon, space="polygon x position x type of state x time",
         quick=dict(polys=list(POLYS), grid=[-1.0, 0.5, 1.0, 2.5, 3.0, 4.5, 7.0], kinds=ALL),
         thorough=dict(polys=list(POLYS), grid=[x / 4 for x in range(-4, 30)], kinds=["car", "rocket"])),
    dict(name="lane_end", body=lane_end, space="lane x inflation x position",
         quick=dict(names=PATHS, starts=STARTS, offs=[-2.5, -1.2, -0.5, 0.0, 0.7, 1.2, 2.5], laterals=[0.0, 0.9, -1.2, 2.0], infl=[None, 2, 0.5]),
         thorough=dict(names=PATHS, starts=STARTS, offs=[-4, -2.5, -1.2, -0.5, 0.0, 0.7, 1.2, 2.5, 4], laterals=[0.0, 0.9, -1.2, 2.0, -3.0], infl=[None, 2, 0.5, 3])),
    dict(name="pose", body=pose, space="pose x offset x turn x tolerance x type of state",
         quick=dict(poses=[(1.0, 2.0, 0.4), (-3.0, 0.5, 3.1), (0.0, 0.0, -1.6)], offs=[(0, 0), (0.3, 0.0), (0.0, -0.05), (1.0, 1.0), (0.5, -0.5)],
                    angs=[0.0, 2 * math.pi, -2 * math.pi, 0.05, -0.4, 1.5, math.pi], tols=[None, 0.1, 1.0, 2.5], kinds=["car", "spaceship"]),
         thorough=dict(poses=[(1.0, 2.0, 0.4), (-3.0, 0.5, 3.1), (0.0, 0.0, -1.6)], offs=[(0, 0), (0.3, 0.0), (0.0, -0.05), (1.0, 1.0), (0.5, -0.5), (1e-8, 0)],
                       angs=[0.0, 2 * math.pi, -2 * math.pi, 0.05, -0.05, -0.4, 0.7, 1.5, math.pi, 1e-8], tols=[None, 0.1, 0.3, 1.0, 2.5], kinds=ALL)),
]
