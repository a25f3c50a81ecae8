"""C09 - combining the reports of one accident is a fold over time."""
from copy import deepcopy
from dataclasses import fields
from decimal import Decimal as D
from functools import lru_cache

import numpy as np
from shapely.geometry import Point, box

from dg_commons.sim.collision_structures import CollisionReport, CollisionReportPlayer, combine_collision_reports
from zuper_commons.types import ZValueError

ASSUMPTIONS = ["reports of two players"]
LOCS = ["front", "back", "left", "right"]


def report(i, t, players, empty=()):
    ps = {}
    for k, p in enumerate(players):
        s = 100 * i + 10 * k
        ps[p] = None if p in empty else CollisionReportPlayer(
            locations=[(LOCS[(i + k + j) % 4], box(s, j, s + 1, j + 1)) for j in range(1 + (i + k) % 2)],
            at_fault=bool((7 * i + 3 * (p == "B")) // 2 % 2), footprint=box(s, 0, s + 4, 2),
            velocity=(np.array([s + 0.1, s + 0.2]), s + 0.3),
            velocity_after=(np.array([s + 1.1, s + 1.2]), s + 1.3),
            energy_delta=-(2.0 ** i) * (k + 1),
        )
    return CollisionReport(players=ps, impact_point=None if empty else Point(i, -i),
                           impact_normal=None if empty else np.array([0.6, 0.8]) * (1 if i % 2 else -1), at_time=t)


def view(r):
    def pl(q):
        if q is None:
            return None
        return (tuple((str(l), s.wkt) for l, s in q.locations), q.at_fault, q.footprint.wkt,
                (tuple(map(float, q.velocity[0])), float(q.velocity[1])),
                (tuple(map(float, q.velocity_after[0])), float(q.velocity_after[1])), round(float(q.energy_delta), 9))

    return (tuple(sorted((str(p), pl(q)) for p, q in r.players.items())),
            None if r.impact_point is None else r.impact_point.wkt,
            None if r.impact_normal is None else tuple(map(float, r.impact_normal)), r.at_time)


def expected(rs):
    """rs: in the order of time"""
    players = {}
    for p in rs[0].players:
        qs = [r.players[p] for r in rs if r.players[p] is not None]
        if not qs:
            players[p] = None
            continue
        players[p] = CollisionReportPlayer(
            locations=[x for q in qs for x in q.locations], at_fault=qs[0].at_fault, footprint=qs[0].footprint,
            velocity=qs[0].velocity, velocity_after=qs[-1].velocity_after, energy_delta=sum(q.energy_delta for q in qs))
    return CollisionReport(players=players, impact_point=rs[0].impact_point, impact_normal=rs[0].impact_normal,
                           at_time=rs[0].at_time)


@lru_cache(None)
def trees(lo, hi):
    if hi - lo == 1:
        return [lo]
    return [(l, r) for m in range(lo + 1, hi) for l in trees(lo, m) for r in trees(m, hi)]


def fold(t, rs, flip):
    if isinstance(t, int):
        return rs[t]
    a, b = fold(t[0], rs, flip), fold(t[1], rs, flip)
    return combine_collision_reports(b, a) if flip else combine_collision_reports(a, b)


def body(c, lens, gaps, empties):
    n = c.pick(lens, "reports")
    t = D("0.5")
    rs = []
    ties = False
    for i in range(n):
        if i:
            g = c.pick(gaps, f"gap{i}")
            ties |= g == 0
            t += g
        rs.append(report(i, t, ("A", "B") if i % 2 else ("B", "A"), c.pick(empties, f"unresolved{i}")))
    tree = c.pick(trees(0, n), "bracketing")
    flip = c.flag("arguments_swapped") if not ties else False
    before = [view(r) for r in rs]
    got = fold(tree, rs, flip)
    want = expected(rs)
    c.compared()
    c.check(view(got) == view(want), "fold", lambda: f"got {view(got)}\nexpected {view(want)}")
    c.check([view(r) for r in rs] == before, "inputs-changed", "combining changed one of the reports")
    c.step(n - 1)
    c.state(view(got))
    c.outcome((tree, ties, flip))


def mismatch(c):
    a = report(0, D(1), ("A", "B"))
    b = report(1, D(2), c.pick([("A",), ("A", "C"), ("A", "B", "C"), ("C", "D"), ()], "players"))
    x, y = (a, b) if c.flag("first") else (b, a)
    try:
        r = combine_collision_reports(x, y)
    except ZValueError:
        r = "refused"
    c.check(r == "refused", "mismatch", f"reports about different players were combined into {r}")
    c.compared()
    c.outcome("refused")


HARNESSES = [
    dict(name="fold", body=body, space="number of reports x time gaps x unresolved ones x bracketing x argument order",
         quick=dict(lens=[1, 2, 3], gaps=[D("0.1"), D(3)], empties=[(), ("A", "B"), ("A",)]),
         thorough=dict(lens=[1, 2, 3, 4, 5], gaps=[D("0.1"), D(3)], empties=[(), ("A", "B"), ("A",)])),
    dict(name="mismatch", body=mismatch, space="player sets that differ"),
]
