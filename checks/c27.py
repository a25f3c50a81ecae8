"""C27 - speed behaviour: yielding, emergencies and following, over all small traffic situations."""
import math
from dataclasses import replace

import numpy as np
from frozendict import frozendict as fd
from shapely.geometry import box

from dg_commons import PlayerName
from dg_commons.controllers.speed import SpeedBehavior
from dg_commons.sim import PlayerObservations
from dg_commons.sim.models.vehicle import VehicleState

from .lanelib import wrap
from .modellib import KINDS

ASSUMPTIONS = ["situations within 1e-3 of a threshold are not judged"]
ME = PlayerName("me")
PARAMS = {"default": {}, "slow": dict(nominal_speed=4.0), "careful": dict(yield_distance=15.0, safety_time_braking=3.0), "bold": dict(minimum_yield_vel=5.0, safety_time_braking=0.8)}
EPS = 1e-3


class Near(Exception):
    pass


def lt(a, b):
    """a < b, unless too close to call"""
    if abs(a - b) < EPS:
        raise Near
    return a < b


def one(me, o, prm):
    """(yield, emergency, followed speed or None); me: (x, y, psi, v); o: the same"""
    dx, dy = o[0] - me[0], o[1] - me[1]
    cs, sn = math.cos(me[2]), math.sin(me[2])
    rx, ry, th = cs * dx + sn * dy, -sn * dx + cs * dy, wrap(o[2] - me[2])
    dist = math.hypot(rx, ry)
    # its heading crosses mine from right to left, or from left to right
    from_right = lt(math.pi / 4, th) and lt(th, 3 * math.pi / 4)
    from_left = lt(math.pi / 4, -th) and lt(-th, 3 * math.pi / 4)
    oncoming = lt(3 * math.pi / 4, abs(th))
    moving = lt(prm.minimum_yield_vel, o[3])
    near = lt(dist, prm.yield_distance)
    ahead = lt(0, rx) and lt(abs(ry), 1.2)
    yields = from_right and moving and near
    emergency = from_left and moving and near or (oncoming and ahead and lt(dist, prm.safety_time_braking * (me[3] + o[3])))
    follow = None
    if lt(0.5, rx) and lt(abs(ry), 1.2) and lt(abs(th), math.pi / 6) and lt(dist, prm.safety_time_braking * me[3] + max(me[3] - o[3], 0)):
        follow = min(max(o[3] - max(me[3] - o[3], 0), 0), 130 / 3.6)
    return yields, emergency, follow


def expected(me, others, prm):
    rs = [one(me, o, prm) for o in others]
    em = any(r[1] for r in rs)
    if em or any(r[0] for r in rs):
        return 0.0, em
    return min([prm.nominal_speed] + [r[2] for r in rs if r[2] is not None]), False


def obs(p, kind="car"):
    m = KINDS[kind].model(p[0], p[1], p[2], vx=p[3]) if kind != "plain" else None
    s = m.get_state() if m else VehicleState(x=p[0], y=p[1], psi=p[2], vx=p[3], delta=0.0)
    return PlayerObservations(state=s, occupancy=box(-1, -1, 1, 1))


def behaviour(name):
    sb = SpeedBehavior(my_name=ME)
    sb.params = replace(sb.params, **PARAMS[name])
    return sb


def ask(sb, me, others, order, kinds=None):
    pl = [(ME, obs(me, "plain"))] + [(PlayerName(f"o{i}"), obs(o, (kinds or {}).get(i, "plain"))) for i, o in enumerate(others)]
    pl = [pl[i] for i in order]
    sb.update_observations(fd(pl))
    return sb.get_speed_ref(1.0)


def judge(c, got, want, what):
    v, em = got
    c.compared(2)
    c.check(bool(em) == want[1], "emergency", lambda: f"emergency: {em}, expected {want[1]}; {what()}")
    c.check(abs(v - want[0]) < 1e-9, "speed", lambda: f"reference {v}, expected {want[0]}; {what()}")


def place(me, rel):
    x, y, th, v = rel
    cs, sn = math.cos(me[2]), math.sin(me[2])
    return me[0] + cs * x - sn * y, me[1] + sn * x + cs * y, me[2] + th, v


def single(c, params, mes, xs, ys, ths, vs, kinds):
    name = c.pick(params, "parameters")
    sb = behaviour(name)
    me = c.pick(mes, "me")
    rel = (c.pick(xs, "x"), c.pick(ys, "y"), c.pick(ths, "heading"), c.pick(vs, "speed"))
    o = place(me, rel)
    try:
        want = expected(me, [o], sb.params)
    except Near:
        c.count("near a threshold")
        return
    kind = c.pick(kinds, "kind")
    got = ask(sb, me, [o], c.pick([(0, 1), (1, 0)], "order"), {0: kind})
    c.step()
    what = lambda: f"{name}: me {me}, other at {rel} relative to me"
    judge(c, got, want, what)
    again = ask(sb, me, [o], (0, 1), {0: kind})
    c.check(tuple(again) == tuple(got), "stable", what)
    c.state((name, me[3], rel))
    c.outcome((round(got[0], 6), got[1]))


def several(c, params, mes, rels, n, orders):
    """what one other vehicle demands is not undone by another"""
    name = c.pick(params, "parameters")
    sb = behaviour(name)
    me = c.pick(mes, "me")
    rr = [c.pick(rels, f"other{i}") for i in range(c.pick(n, "n"))]
    os_ = [place(me, r) for r in rr]
    try:
        want = expected(me, os_, sb.params)
    except Near:
        c.count("near a threshold")
        return
    k = len(os_) + 1
    order = {"first": list(range(k)), "last": list(range(1, k)) + [0], "reverse": list(range(k))[::-1], "mid": list(range(1, k - 1)) + [0] + list(range(max(1, k - 1), k))}[c.pick(orders, "order")]
    got = ask(sb, me, os_, order)
    c.step()
    judge(c, got, want, lambda: f"{name}: me {me}, others at {rr}, order {order}")
    c.state((name, me[3], tuple(rr)))
    c.outcome((round(got[0], 6), got[1]))


def history(c, rels, depth):
    """a decision depends on the current situation only"""
    sb = behaviour("default")
    me = (0.0, 0.0, 0.0, 10.0)
    for j in range(depth):
        rr = c.pick(rels, f"others{j}")
        os_ = [place(me, r) for r in rr]
        got = ask(sb, me, os_, list(range(len(os_) + 1)))
        c.step()
        judge(c, got, expected(me, os_, sb.params), lambda: f"after {j} other situations: {rr}")
        c.state((j, rr))
    c.outcome((round(got[0], 6), got[1]))


MES = [(0.0, 0.0, 0.0, 10.0), (5.0, -3.0, 2.5, 3.0), (100.0, 20.0, -3.0, 25.0), (0.0, 0.0, 1.6, 0.0)]
THS = [0.0, 0.4, -0.45, 0.6, 1.0, -1.0, 1.57, -1.7, 2.3, 2.5, -2.5, math.pi, -2.9]
RELS = [(5.0, 0.5, 0.1, 8.0), (5.0, -3.0, 1.5, 3.0), (4.0, 4.0, -1.4, 3.0), (12.0, 0.0, 0.0, 2.0), (9.0, -0.7, 3.0, 6.0), (-6.0, 0.0, 0.0, 20.0), (30.0, 0.2, 0.0, 0.0),
        (200.0, 50.0, 2.0, 10.0)]
FAR = [(20.0, 4.0, -1.4, 3.0), (25.0, -4.0, 1.4, 3.0), (80.0, 0.0, 3.1, 6.0), (4.0, 4.0, -1.4, 0.0), (5.0, -3.0, 1.5, 3.0), (4.0, 4.0, -1.4, 3.0), (12.0, 0.0, 0.0, 2.0)]
HARNESSES = [
    dict(name="single", body=single, space="parameters x my state x relative position, heading and speed of another vehicle",
         quick=dict(params=list(PARAMS), mes=MES, xs=[-8.0, -3.0, 0.2, 0.7, 4.0, 6.6, 11.0, 16.0, 33.0], ys=[-6.0, -1.3, -1.1, 0.0, 1.1, 1.3, 3.0], ths=THS,
                    vs=[0.0, 1.3, 1.5, 4.0, 8.0, 12.0], kinds=["plain"]),
         thorough=dict(params=list(PARAMS), mes=MES, xs=[-30.0, -8.0, -3.0, -0.1, 0.2, 0.4, 0.7, 2.0, 4.0, 6.6, 7.2, 11.0, 14.0, 16.0, 33.0, 60.0],
                       ys=[-14.0, -6.0, -1.3, -1.1, 0.0, 1.1, 1.3, 3.0, 7.0], ths=THS + [0.5, -0.55, 0.75, 0.82, -0.82, 2.34, 2.37], vs=[0.0, 1.3, 1.5, 4.0, 8.0, 9.5, 12.0, 30.0], kinds=["plain"])),
    dict(name="kinds", body=single, space="as single, with other kinds of vehicles",
         args=dict(params=["default"], mes=MES[:2], xs=[-3.0, 4.0, 11.0], ys=[-1.1, 0.0, 3.0], ths=[0.0, 1.57, -1.7, math.pi], vs=[1.3, 4.0], kinds=["pedestrian", "cardyn", "bicycle", "spaceship"])),
    dict(name="several", body=several, space="parameters x my state x up to 3 other vehicles x order",
         quick=dict(params=["default", "careful"], mes=MES[:2], rels=RELS, n=[0, 1, 2, 3], orders=["first", "last", "reverse"]),
         thorough=dict(params=list(PARAMS), mes=MES, rels=RELS, n=[0, 1, 2, 3], orders=["first", "last", "reverse", "mid"])),
    dict(name="reversing", body=single, space="as single, when I or the other goes backwards",
         args=dict(params=list(PARAMS), mes=[(0.0, 0.0, 0.0, -2.0), (5.0, -3.0, 2.5, -6.0), (5.0, -3.0, 2.5, 4.0)], xs=[-3.0, 0.7, 3.0, 6.6, 11.0, 16.0], ys=[-3.0, -1.1, 0.0, 1.1],
                   ths=[0.0, 0.4, 1.57, -1.7, 2.3, math.pi, -2.9], vs=[-3.0, -1.6, 1.3, 3.0, 8.0], kinds=["plain"])),
    dict(name="crowd", body=several, space="many vehicles, of which most are far away",
         quick=dict(params=["default"], mes=MES[:1], rels=FAR, n=[1, 2, 4], orders=["first", "last"]),
         thorough=dict(params=["default", "careful"], mes=MES[:2], rels=FAR, n=[2, 4, 5], orders=["first", "last", "reverse"])),
    dict(name="history", body=history, space="all sequences of situations",
         quick=dict(rels=[()] + [(r,) for r in RELS], depth=3), thorough=dict(rels=[()] + [(r,) for r in RELS], depth=4)),
]
