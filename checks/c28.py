"""C28 - pure pursuit: goal point and steering on lanes of known geometry; lane followers converge to their lane."""
import math
from dataclasses import replace
from decimal import Decimal as D

import numpy as np
from frozendict import frozendict as fd
from geometry import SE2_from_xytheta, translation_angle_from_SE2

from dg_commons import PlayerName, SE2Transform
from dg_commons.controllers.pure_pursuit import PurePursuit, PurePursuitParam
from dg_commons.sim.agents.lane_follower import LFAgent
from dg_commons.sim.models.vehicle import VehicleModel
from dg_commons.sim.models.vehicle_structures import VehicleGeometry
from dg_commons.sim.scenarios.structures import DgScenario
from dg_commons.sim.simulator import SimContext, Simulator
from dg_commons.sim.simulator_structures import SimParameters

from .lanelib import PATHS, Path, paths, wrap

ASSUMPTIONS = ["the goal point is found up to the accuracy of its one-dimensional search (2 cm)",
               "closed loops: kinematic car on lanes of at least 12.5 m radius that turn by at most a quarter of a circle each way (the search of the lane position is documented to be local), from offsets within 2 m and 0.6 rad, at the default speed or less"]
PARAMS = {"default": {}, "short": dict(look_ahead_minmax=(1.0, 6.0), min_distance=0.5, k_lookahead=0.5), "long": dict(length=6.0, lr=2.0, k_lookahead=1.5)}


def lookahead(prm, v):
    return max(prm.look_ahead_minmax[0], min(prm.look_ahead_minmax[1], prm.k_lookahead * v))


def steering(c, names, starts, alongs, laterals, headings, speeds, params):
    start = c.pick(starts, "start")
    p = lane_of(c.pick(names, "lane"), start)
    prm = replace(PurePursuitParam(), **PARAMS[c.pick(params, "parameters")])
    pp = PurePursuit(prm)
    pp.update_path(p.lane())
    s = c.pick(alongs, "along") * p.L
    d, h = c.pick(laterals, "lateral"), c.pick(headings, "heading")
    x, y = p.at(s, d)
    th = p.pose(s)[2] + h
    v = c.pick(speeds, "speed")
    pp.update_pose(pose=SE2_from_xytheta([x, y, th]), along_path=float(s))
    pp.update_speed(v)
    aim(c, pp, prm, p, s, d, h, v, (x, y, th))


def aim(c, pp, prm, p, s, d, h, v, pose):
    x, y, th = pose
    L = lookahead(prm, v)
    along, goal = pp.find_goal_point()
    delta = pp.get_desired_steering()
    c.step(2)
    c.compared(6)
    what = lambda: f"{prm}: {s} of {p.L}, lateral {d}, heading {h}, speed {v}: goal at {along}, steering {delta}"
    lo, hi = s + prm.min_distance, s + prm.min_distance + L
    c.check(lo - 1e-6 <= along <= hi + 1e-6, "goal-range", what)
    gx, gy, gth = p.pose(along)
    g, gang = translation_angle_from_SE2(goal)
    c.check(math.hypot(g[0] - gx, g[1] - gy) < 1e-5 and abs(wrap(gang - gth)) < 1e-5, "goal-on-path", what)
    # nothing within the range is closer to being a look-ahead away
    err = lambda a: abs(math.hypot(p.pose(a)[0] - x, p.pose(a)[1] - y) - L)
    best = min(err(lo + (hi - lo) * k / 400) for k in range(401))
    c.check(err(along) <= best + 0.02, "goal-distance", lambda: f"{what()}: off the look-ahead by {err(along)}, best {best}")
    rx, ry = x - prm.lr * math.cos(th), y - prm.lr * math.sin(th)
    alpha = wrap(math.atan2(gy - ry, gx - rx) - th)
    want = math.atan(2 * prm.length * math.sin(alpha) / L)
    c.check(abs(delta - want) < 1e-6, "steering", lambda: f"{what()}, expected {want}")
    if abs(math.sin(alpha)) > 1e-3:
        c.check((delta > 0) == (math.sin(alpha) > 0), "side", what)
    c.state((round(delta, 6), round(along - s, 4)))
    c.outcome(round(delta, 3))


def lane_of(name, start):
    if name == "uturn":
        return Path(*start, [(0, [6.0]), (0.25, [math.pi / 2] * 8), (0, [4.0] * 5)], [2.0])
    if name == "roundabout":
        return Path(*start, [(-0.2, [2.5] * 11)], [2.0])
    return paths(*start)[name]


def reuse(c, names, alongs, laterals, speeds, depth):
    """one controller is given a new path, pose or speed (or none of them) between requests"""
    prm = PurePursuitParam()
    pp = PurePursuit(prm)
    p = s = d = None
    v = 0.0
    hist = []
    for j in range(depth):
        if p is None or c.flag(f"new path{j}"):
            name = c.pick(names, f"lane{j}")
            p = lane_of(name, STARTS[0])
            pp.update_path(p.lane())
        if s is None or c.flag(f"new pose{j}"):
            s, d = c.pick(alongs, f"along{j}"), c.pick(laterals, f"lateral{j}")
        if c.flag(f"new speed{j}"):
            v = c.pick(speeds, f"speed{j}")
            pp.update_speed(v)
        x, y = p.at(s, d)
        th = p.pose(s)[2] + 0.2
        pp.update_pose(pose=SE2_from_xytheta([x, y, th]), along_path=float(s))
        hist.append((name, s, d, v))
        aim(c, pp, prm, p, s, d, 0.2, v, (x, y, th))
    c.state(tuple(hist))


def usage(c):
    """no steering without a path and a pose; parameters are not shared; the vehicle's geometry is used"""
    a, b = PurePursuit(), PurePursuit()
    p = paths()["straight"]
    has_path, has_pose = c.flag("path"), c.flag("pose")
    if has_path:
        a.update_path(p.lane())
    if has_pose:
        a.update_pose(SE2_from_xytheta([1, 2, 0.3]), 2.0)
    c.step()
    c.compared(3)
    try:
        a.get_desired_steering()
        ok = True
    except RuntimeError:
        ok = False
    c.check(ok == (has_path and has_pose), "unset", f"path {has_path}, pose {has_pose}")
    a.param.k_lookahead = 77.0
    c.check(b.param.k_lookahead == 0.8 and PurePursuit().param.k_lookahead == 0.8, "shared", "two controllers share their parameters")
    g = c.pick([VehicleGeometry.default_car(), VehicleGeometry.default_truck(), VehicleGeometry.default_bicycle()], "geometry")
    q = PurePursuit.from_model_geometry(g)
    c.check((q.param.length, q.param.lr) == (g.wheelbase, g.lr), "geometry", f"{q.param}")
    c.state((has_path, has_pose, g.wheelbase))
    c.outcome(ok)


def follow(c, names, starts, offs, headings, speeds, nominal, dt_cmds, horizon):
    """the complete loop: agent, controllers, vehicle, simulator"""
    start = c.pick(starts, "start")
    p = LANES[c.pick(names, "lane")](*start)
    d, h, v, vn, dtc = c.pick(offs, "offset"), c.pick(headings, "heading"), c.pick(speeds, "speed"), c.pick(nominal, "nominal"), c.pick(dt_cmds, "dt_commands")
    x, y = p.at(5.0, d)
    from dg_commons.sim.models.vehicle import VehicleState
    m = VehicleModel.default_car(VehicleState(x=x, y=y, psi=p.pose(5.0)[2] + h, vx=v, delta=0.0))
    ag = LFAgent(p.lane(), model_params=m.model_params, model_geo=m.model_geometry)
    ag.speed_behavior.params.nominal_speed = vn
    name = PlayerName("ego")
    ctx = SimContext(dg_scenario=DgScenario(), models={name: m}, players={name: ag},
                     param=SimParameters(dt=D("0.05"), dt_commands=D(dtc), max_sim_time=D(horizon)))
    Simulator().run(ctx)
    st = ctx.log[name].states
    c.step(len(st))
    c.compared(len(st))
    worst, last = 0.0, None
    from shapely.geometry import LineString, Point
    line = LineString([p.pose(k * 0.25)[:2] for k in range(-40, int(4 * p.L) + 1)])
    ds = [line.distance(Point(s.x, s.y)) for s in st.values]
    prog = [line.project(Point(s.x, s.y)) for s in st.values]
    what = lambda: f"lane {start}, offset {d}, heading {h}, speed {v}, nominal {vn}, commands every {dtc}: ends {ds[-1]} m off the lane at {st.values[-1]}"
    c.check(max(ds) < abs(d) + 3.0, "excursion", lambda: f"{max(ds)} m away from the lane; {what()}")
    end = [q for q, g in zip(ds, prog) if g < line.length - 1.0]
    if prog[-1] < line.length - 1.0:
        tail = ds[-20:]
        c.check(max(tail) < 0.5, "convergence", what)
        c.check(prog[-1] > prog[0] + 0.5 * vn * float(horizon) - 5, "progress", what)
    else:
        raise AssertionError("the lane is too short for the horizon")
    c.check(all(abs(s.vx - vn) < 0.3 for s in st.values[-20:]), "speed", what)
    c.state((round(ds[-1], 4), round(prog[-1], 3)))
    c.outcome(round(max(ds), 1))


LANES = {
    "straight": lambda x, y, q: Path(x, y, q, [(0, [20.0] * 12)], [2.0]),
    "left": lambda x, y, q: Path(x, y, q, [(0, [10.0, 10.0]), (0.04, [2.0] * 18), (0, [25.0] * 5)], [2.0]),
    "right": lambda x, y, q: Path(x, y, q, [(0, [10.0, 10.0]), (-0.08, [1.5] * 12), (0, [30.0] * 5)], [2.0]),
    "s": lambda x, y, q: Path(x, y, q, [(0, [15.0]), (0.03, [5.0] * 6), (-0.03, [5.0] * 12), (0, [30.0] * 5)], [2.0]),
}
STARTS = [(1.0, -2.0, 0.3), (0.0, 0.0, 3.0)]
HARNESSES = [
    dict(name="steering", body=steering, space="lane x placement x position along, lateral and heading x speed x parameters",
         quick=dict(names=PATHS, starts=STARTS, alongs=[-0.4, 0.0, 0.3, 0.7, 1.0], laterals=[0.0, 1.0, -1.5], headings=[0.0, 0.5, -0.9], speeds=[0.0, 6.0, 20.0], params=list(PARAMS)),
         thorough=dict(names=PATHS, starts=STARTS + [(-50.0, 20.0, -2.9), (5.0, 5.0, math.pi / 2)], alongs=[-1.0, -0.2, 0.0, 0.15, 0.3, 0.5, 0.7, 0.95, 1.0, 1.3],
                       laterals=[0.0, 0.3, 1.0, -1.5], headings=[0.0, 0.5, -0.9, 2.0], speeds=[0.0, 3.0, 6.0, 10.0, 20.0, 60.0], params=list(PARAMS))),
    dict(name="winding", body=steering, space="as steering, on lanes that come back, also in reverse",
         quick=dict(names=["uturn", "roundabout", "left"], starts=STARTS, alongs=[-0.1, 0.0, 0.1, 0.2, 0.35, 0.5, 0.7], laterals=[0.0, 1.0], headings=[0.0, -0.4], speeds=[-5.0, 0.0, 6.0, 12.0], params=["default", "short"]),
         thorough=dict(names=["uturn", "roundabout", "left"], starts=STARTS, alongs=[k / 20 for k in range(-3, 24)], laterals=[0.0, 1.0, -1.2], headings=[0.0, -0.4, 0.7], speeds=[-5.0, 0.0, 3.0, 6.0, 8.0, 12.0], params=list(PARAMS))),
    dict(name="reuse", body=reuse, space="histories of new paths, poses and speeds",
         quick=dict(names=["straight", "left", "right"], alongs=[2.0, 6.0], laterals=[0.0, 1.0], speeds=[0.0, 6.0], depth=2),
         thorough=dict(names=["straight", "left", "right"], alongs=[2.0, 6.0], laterals=[0.0, 1.0], speeds=[0.0, 6.0], depth=3)),
    dict(name="usage", body=usage, space="what was set x geometry"),
    dict(name="follow", body=follow, space="lane x placement x initial offset, heading and speed x nominal speed x command period",
         quick=dict(names=list(LANES), starts=STARTS, offs=[0.0, 1.5, -2.0], headings=[0.0, 0.5], speeds=[0.0, 8.0], nominal=[6.0], dt_cmds=["0.1"], horizon="12"),
         thorough=dict(names=list(LANES), starts=STARTS, offs=[0.0, 1.5, -2.0], headings=[0.0, 0.5, -0.6], speeds=[0.0, 8.0], nominal=[4.0, 8.0], dt_cmds=["0.05", "0.1", "0.2"], horizon="15")),
]
