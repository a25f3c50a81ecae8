"""C29 - safety metrics: distance, time to collision and required deceleration over logs of all small scenes."""
import math
from dataclasses import dataclass
from decimal import Decimal as D

import numpy as np
from shapely import Polygon
from shapely.geometry import Point, box

from dg_commons import DgSampledSequence, PlayerName
from dg_commons.eval.safety import get_min_dist, get_min_dist_at_t, get_min_ttc_max_drac, get_ttc_drac_at_t, has_collision
from dg_commons.sim.collision_structures import CollisionReport
from dg_commons.sim.goals import PlanningGoal, PolygonGoal
from dg_commons.sim.simulator_structures import PlayerLog, SimLog

from .modellib import KINDS, rot

ASSUMPTIONS = ["times to collision are looked for every 0.1 s, for 3 s, as documented in the code; instants at which outlines miss each other by less than 1e-6 m are not judged",
               "speeds are along the headings (no lateral velocity)"]
EGO = PlayerName("Ego")
HORIZON, STEP = 3.0, 0.1


def outline(model, q):
    pg = model.shape if hasattr(model, "shape") else model.model_geometry.outline_as_polygon
    return Polygon(np.array(pg.exterior.coords) @ rot(q[2]).T + q[:2])


def player(kind, q, v, **kw):
    zero = {k: 0.0 for k in ("vy", "dpsi") if k in KINDS[kind].state.idx}
    return KINDS[kind].model(q[0], q[1], q[2], vx=v, **zero)


def seqlog(model, times, states):
    return PlayerLog(states=DgSampledSequence(times, states), commands=DgSampledSequence([times[0]], [None]),
                     extra=DgSampledSequence([], []), info=DgSampledSequence([times[0]], [0.0]))


class Unclear(Exception):
    pass


def metrics(me, others):
    """(distance, {who}), (ttc, {who}), (drac, {who}) of one instant; players: (model, pose, speed)"""
    pme = outline(me[0], me[1])
    dist, ttc, drac = (math.inf, set()), (math.inf, set()), (-math.inf, set())
    vme = me[2] * np.array([math.cos(me[1][2]), math.sin(me[1][2])])
    for name, (m, q, v) in others.items():
        po = outline(m, q)
        dist = best(dist, po.distance(pme), name, 1)
        d = np.array(q[:2]) - me[1][:2]
        vr = v * np.array([math.cos(q[2]), math.sin(q[2])]) - vme
        closing = -(vr @ d) / np.linalg.norm(d)
        if abs(closing) < 1e-9 and not (vr == 0).all():
            raise Unclear
        if closing <= 0:
            continue
        meet = np.linalg.norm(d) / closing
        if abs(meet - 5.0) < 1e-9:
            raise Unclear
        if meet > 5.0:
            continue
        t = math.inf
        for k in range(int(HORIZON / STEP) + 1):
            moved = Polygon(np.array(po.exterior.coords) + vr * (k * STEP))
            gap = moved.distance(pme)
            if gap == 0 and moved.intersection(pme).area > 1e-9:
                t = k * STEP
                break
            if gap < 1e-6:
                raise Unclear
        ttc = best(ttc, t, name, 1)
        dtc = me[2] * t if t < math.inf else math.inf
        drac = best(drac, me[2] ** 2 / (2 * dtc) if dtc > 0 else math.inf, name, -1)
    return dist, ttc, drac


def best(cur, val, name, sign):
    if abs(val - cur[0]) < 1e-9 or val == cur[0]:
        return cur[0], cur[1] | {name}
    return (val, {name}) if sign * val < sign * cur[0] else cur


def same(c, got, want, key, what):
    v, who = got[:2]
    ok = abs(v - want[0]) < 1e-6 if math.isfinite(want[0]) else v == want[0]
    c.compared(2)
    c.check(ok, key, lambda: f"{v}, expected {want[0]}: {what()}")
    # without a finite extremum there may be nobody
    c.check(who in want[1] or (who is None and (not want[1] or (want[0] == math.inf and key != "drac"))), key + "-who", lambda: f"{who}, expected one of {want[1]}: {what()}")


def place(me, rel):
    cs, sn = math.cos(me[2]), math.sin(me[2])
    return (me[0] + cs * rel[0] - sn * rel[1], me[1] + sn * rel[0] + cs * rel[1], me[2] + rel[2])


def pair(c, kinds, egos, poses, xs, ys, ths, vs, v0s):
    """one other player, one instant"""
    ke, ko = c.pick(kinds, "kinds")
    q = c.pick(poses, "pose")
    rel = (c.pick(xs, "x"), c.pick(ys, "y"), c.pick(ths, "heading"))
    v0, v = c.pick(v0s, "my speed"), c.pick(vs, "speed")
    o = place(q, rel)
    me, other = player(ke, q, v0), player(ko, o, v)
    logs = SimLog()
    logs[EGO] = seqlog(me, [0], [me.get_state()])
    logs["o"] = seqlog(other, [0], [other.get_state()])
    # the models are where they were at the end
    models = {EGO: player(ke, (300.0, 7.0, 1.0), 1.0), "o": player(ko, (-50.0, 7.0, 2.0), 1.0)}
    before = [str(m.get_state()) for m in models.values()]
    what = lambda: f"{ke} at {q}, {v0} m/s; {ko} at {rel} relative to it, {v} m/s"
    try:
        dist, ttc, drac = metrics((me, q, v0), {"o": (other, o, v)})
    except Unclear:
        c.count("too close to call")
        return
    c.step(2)
    same(c, get_min_dist_at_t(logs, models, {}, 0, EGO), dist, "distance", what)
    t, tw, d, dw = get_ttc_drac_at_t(logs, models, {}, 0, EGO)
    same(c, (t, tw), ttc, "ttc", what)
    same(c, (d, dw), drac, "drac", what)
    c.check([str(m.get_state()) for m in models.values()] == before, "mutates", "the models were changed")
    c.state((ke, ko, rel, v0, v))
    c.outcome((round(float(ttc[0]), 1), round(float(dist[0]), 0)))


@dataclass(frozen=True)
class Until(PlanningGoal):
    """fulfilled from some time on"""

    t: float

    def is_fulfilled(self, state, at=0):
        return float(at) >= self.t

    def get_plottable_geometry(self, at=0):
        return Point(0, 0)


GOALS = {"none": None, "away": PolygonGoal(box(500, 500, 501, 501)), "region": PolygonGoal(box(14, -50, 60, 50)), "later": Until(0.9), "at once": Until(0.0)}
TRACKS = {"ahead": ("car", (9.0, 0.5, 0.0), 2.0), "oncoming": ("car", (25.0, -1.0, math.pi), 9.0), "crossing": ("bicycle", (8.0, -6.0, 1.5), 4.0),
          "walker": ("pedestrian", (6.0, 3.0, -1.5), 1.2), "behind": ("truck", (-9.0, 0.3, 0.1), 8.0), "far": ("car", (40.0, 30.0, 2.0), 3.0),
          "leaving": ("car", (7.0, 2.6, 0.1), 16.0), "cutting": ("car", (11.0, -2.0, math.pi / 2), 6.0)}


def fulfilled(g, q, t):
    if g is None:
        return False
    return 14 < q[0] < 60 and -50 < q[1] < 50 if g is GOALS["region"] else t >= g.t if isinstance(g, Until) else False


def scene(c, tracks, n, goals, ego_goals, ranges, grids, stamps):
    """whole logs: who counts, and when"""
    conv = dict(float=float, dec=lambda t: D(str(t)))[c.pick(stamps, "timestamps")]
    times = c.pick(grids, "times")
    eg = c.pick(ego_goals, "my goal")
    chosen = []
    for i in range(c.pick(n, "n")):
        tr = c.pick([t for t in tracks if t not in [a for a, _ in chosen]], f"track{i}")
        chosen.append((tr, c.pick(goals, f"goal{i}")))
    lo, hi = c.pick(ranges, "range")
    logs, models, missions, tr = SimLog(), {}, {}, {}
    for name, kind, q, v, g in [(EGO, "car", (0.0, 0.0, 0.0), 7.0, eg)] + [(PlayerName(t), *TRACKS[t], g) for t, g in chosen]:
        m = player(kind, q, v)
        at = lambda t, q=q, v=v: (q[0] + v * t * math.cos(q[2]), q[1] + v * t * math.sin(q[2]), q[2])
        # the others are logged at other instants, but move evenly
        ts = times if name == EGO else [times[0], times[-1]]
        logs[name] = seqlog(m, [conv(t) for t in ts], [player(kind, at(t), v).get_state() for t in ts])
        models[name] = m
        if GOALS[g] is not None:
            missions[name] = GOALS[g]
        tr[name] = (m, at, v, GOALS[g])
    dist, ttc, drac = (math.inf, set()), (math.inf, set()), (-math.inf, set())
    try:
        for t in times:
            if (lo is not None and t < lo) or (hi is not None and t > hi):
                continue
            act = {k: (m, at(t), v) for k, (m, at, v, g) in tr.items() if not fulfilled(g, at(t), t)}
            if EGO not in act:
                continue
            me = act.pop(EGO)
            d1, t1, c1 = metrics(me, act)
            for val, who in [(d1[0], w) for w in d1[1]]:
                dist = best(dist, val, (who, t), 1)
            for val, who in [(t1[0], w) for w in t1[1]]:
                ttc = best(ttc, val, (who, t), 1)
            for val, who in [(c1[0], w) for w in c1[1]]:
                drac = best(drac, val, (who, t), -1)
    except Unclear:
        c.count("too close to call")
        return
    rng = (None if lo is None else conv(lo), None if hi is None else conv(hi))
    what = lambda: f"times {times}, range {lo, hi}, others {chosen}, my goal {eg}"
    c.step(2)
    gd = get_min_dist(logs, models, missions, EGO, rng) if rng != (None, None) else get_min_dist(logs, models, missions, EGO)
    fl = lambda t: None if t is None else float(t)
    pr = lambda v, w, t: (v, (str(w), fl(t)) if w is not None else None)
    same(c, pr(*gd), dist, "distance", what)
    r = get_min_ttc_max_drac(logs, models, missions, EGO, rng)
    same(c, pr(*r[:3]), ttc, "ttc", what)
    same(c, pr(*r[3:]), drac, "drac", what)
    c.state((tuple(chosen), eg, lo, hi, len(times)))
    c.outcome((round(float(dist[0]), 1), str(sorted(map(str, dist[1]))), round(float(ttc[0]), 1)))


def collided(c, names, n):
    reps, want = [], False
    for i in range(c.pick(n, "n")):
        a, b = c.pick(names, f"a{i}"), c.pick(names, f"b{i}")
        more = c.pick([None] + list(names), f"more{i}") if i == 0 else None
        reps.append(CollisionReport.get_empty({PlayerName(p): None for p in (a, b, more) if p}, D(i)))
        want = want or "Ego" in (a, b, more)
    got = has_collision(reps)
    c.step()
    c.compared()
    c.check(got is want, "collision", lambda: f"{got} for {[list(r.players) for r in reps]}")
    c.state(tuple(tuple(r.players) for r in reps))
    c.outcome(got)


PAIRS = [("car", "car"), ("car", "pedestrian"), ("truck", "bicycle"), ("cardyn", "dynobs"), ("bicycle", "spaceship"), ("dynobs", "truckdyn")]
POSES = [(0.0, 0.0, 0.0), (-12.0, 33.0, 2.2)]
HARNESSES = [
    dict(name="pair", body=pair, space="kinds of players x placement x relative position, heading x both speeds",
         quick=dict(kinds=PAIRS, egos=None, poses=POSES, xs=[-7.0, 3.0, 7.3, 14.0, 31.0], ys=[-5.0, -1.4, 0.3, 2.6], ths=[0.0, 1.2, -1.9, 3.0], vs=[0.0, 2.5, 11.0], v0s=[0.0, 5.0, 15.0, -3.0]),
         thorough=dict(kinds=PAIRS, egos=None, poses=POSES, xs=[-20.0, -7.0, -4.0, 0.1, 3.0, 5.1, 7.3, 14.0, 21.0, 31.0, 44.0], ys=[-8.0, -5.0, -1.4, 0.3, 1.9, 2.6, 12.0],
                       ths=[0.0, 0.5, 1.2, -0.9, -1.9, 2.4, 3.0], vs=[-2.0, 0.0, 2.5, 6.0, 11.0], v0s=[0.0, 1.0, 5.0, 15.0, -3.0])),
    dict(name="fast", body=pair, space="as pair, far away from each other and fast",
         args=dict(kinds=[("car", "truck"), ("cardyn", "dynobs")], egos=None, poses=POSES, xs=[-80.0, 66.0, 88.0], ys=[-1.4, 0.3], ths=[0.0, 3.1], vs=[0.0, 28.0, -28.0], v0s=[0.0, 32.0])),
    dict(name="scene", body=scene, space="tracks and goals of the others x own goal x range of time x sampling x type of timestamps",
         quick=dict(tracks=list(TRACKS), n=[0, 1, 2], goals=list(GOALS), ego_goals=["none", "region", "later"], ranges=[(None, None), (0.3, 1.2), (0.5, None), (None, 0.5), (None, 0.0)],
                    grids=[[0.0, 0.25, 0.5, 1.0, 1.5]], stamps=["float", "dec"]),
         thorough=dict(tracks=list(TRACKS), n=[0, 1, 2], goals=list(GOALS), ego_goals=list(GOALS), ranges=[(None, None), (0.3, 1.2), (0.5, None), (None, 0.5), (1.0, 1.0), (7.0, 9.0), (None, 0.0), (0.0, None)],
                       grids=[[0.0, 0.25, 0.5, 1.0, 1.5], [0.0, 0.9, 2.5]], stamps=["float", "dec"])),
    dict(name="collided", body=collided, space="all lists of collision reports", quick=dict(names=["Ego", "ego", "P1", "Ego2"], n=[0, 1, 2, 3]), thorough=dict(names=["Ego", "ego", "P1", "MyEgo", "Ego2"], n=[0, 1, 2, 3])),
]
