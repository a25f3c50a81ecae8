"""C07 - resolving a collision between two bodies follows the impulse law."""
import math
from decimal import Decimal as D

import numpy as np
from dataclasses import replace

from dg_commons.sim.collision import resolve_collision
from dg_commons.sim.scenarios.structures import DgScenario
from dg_commons.sim.simulator import SimContext
from dg_commons.sim.simulator_structures import SimParameters
from mc.core import Prune

from .geomlib import contact, cross2, vel_at
from .modellib import FULL, KINDS, global_velocity, set_global_velocity
from .simlib import TAgent, TCmd

ASSUMPTIONS = ["contact normal and point as documented (chord through the two crossing points of the outlines); "
               "geometrically degenerate contacts are left to C06"]


def context(models, order):
    return SimContext(dg_scenario=DgScenario(), models={n: models[n] for n in order},
                      players={n: TAgent(n, lambda k, o: TCmd(0.0), []) for n in order}, param=SimParameters(),
                      time=D("1.5"))


def build(c, kinds, bearings, depths, psis, speeds, spins, tweak):
    ka, kb = c.pick(kinds, "kinds")
    psi_a, psi_b = c.pick(psis, "psi_A,B")
    th = c.pick(bearings, "bearing")
    depth = c.pick(depths, "depth")
    A, B = KINDS[ka], KINDS[kb]
    d = np.array([math.cos(th), math.sin(th)])
    origin = np.array([12.0, -7.0])

    def mk(dist):
        a = A.still(*origin, psi_a)
        b = B.still(*(origin + dist * d), psi_b)
        return a, b

    lo, hi = 0.0, 30.0
    for _ in range(60):
        mid = (lo + hi) / 2
        a, b = mk(mid)
        lo, hi = (mid, hi) if a.get_footprint().intersects(b.get_footprint()) else (lo, mid)
    a, b = mk(max(lo - depth, 0.05))
    if tweak:
        t = c.pick(tweak, "geometry")
        for m, (dm, diz, de) in zip((a, b), t):
            g = m.model_geometry
            g2 = replace(g, m=g.m * dm, Iz=g.Iz * diz, e=de if de is not None else g.e)
            for attr, v in list(vars(m).items()):
                if v is g:
                    setattr(m, attr, g2)
            assert m.model_geometry is g2
    s = c.pick(speeds, "speed_A,tangential_A,speed_B")
    w = c.pick(spins, "spin_A,B")
    tang = np.array([-d[1], d[0]])
    set_global_velocity(A, a, s[0] * d + s[1] * tang, w[0])
    set_global_velocity(B, b, -s[2] * d + 0.3 * tang, w[1])
    return ka, kb, A, B, a, b


def judge(c, ka, kb, A, B, a, b, order=("a", "b"), tag=""):
    """resolves and compares with the impulse law; returns the velocities after"""
    models = dict(a=a, b=b)
    first, second = models[order[0]], models[order[1]]
    K1, K2 = (A, B) if order[0] == "a" else (B, A)
    f1, f2 = first.get_footprint(), second.get_footprint()
    exp = contact(f1, f2)
    if exp[0] != "contact":
        return None
    n, p = exp[1], exp[2]
    (v1, w1), (v2, w2) = global_velocity(K1, first), global_velocity(K2, second)
    g1, g2 = first.model_geometry, second.model_geometry
    s1, s2 = first.get_state(), second.get_state()
    r1, r2 = p - np.array([s1.x, s1.y]), p - np.array([s2.x, s2.y])
    before = float((vel_at(v1, w1, r1) - vel_at(v2, w2, r2)) @ n)
    if abs(before) < 1e-6:
        return None
    ctx = context(models, order)
    rep = resolve_collision(order[0], order[1], ctx)
    c.step()
    if before < 0:
        c.check(rep is None, "separating", f"{ka},{kb}: separating bodies got a report")
        for m, s in ((first, s1), (second, s2)):
            c.check(m.get_state() == s and m.has_collided is False, "separating-state",
                    f"separating bodies changed: {s} -> {m.get_state()}")
        c.count("separating")
        return None
    c.count("closing")
    c.check(rep is not None, "no-report", f"{ka},{kb}: approaching at {before} and no report")
    q1, q2 = rep.players[order[0]], rep.players[order[1]]
    c.check(set(rep.players) == {"a", "b"} and rep.at_time == D("1.5"), "report-head", f"{set(rep.players)}@{rep.at_time}")
    c.close(rep.impact_normal, n, "normal", "impact normal", tol=1e-6)
    c.close(rep.impact_point.coords[0], p, "point", "impact point", tol=1e-6)
    c.close(q1.velocity[0], v1, "pre-velocity", f"{K1.name} velocity before", tol=1e-9)
    c.close(q2.velocity[0], v2, "pre-velocity", f"{K2.name} velocity before", tol=1e-9)
    c.close(q1.velocity[1], w1, "pre-velocity", f"{K1.name} yaw rate before", tol=1e-9)
    c.close(q2.velocity[1], w2, "pre-velocity", f"{K2.name} yaw rate before", tol=1e-9)
    (u1, o1), (u2, o2) = q1.velocity_after, q2.velocity_after
    u1, u2 = np.array(u1, dtype=float), np.array(u2, dtype=float)
    scale = (g1.m + g2.m) * (abs(before) + 1)
    # impulse on each body; an unmovable body takes whatever impulse
    J1 = g1.m * (u1 - v1) if math.isfinite(g1.m) else None
    J2 = g2.m * (u2 - v2) if math.isfinite(g2.m) else None
    for J, g, u, v, K in ((J1, g1, u1, v1, K1), (J2, g2, u2, v2, K2)):
        if J is None:
            c.close(u, v, "unmovable", "velocity of an unmovable body", tol=1e-9)
    if J1 is not None and J2 is not None:
        c.close((J1 + J2) / scale, np.zeros(2), "momentum", "total linear momentum changed by", tol=1e-6)
    J1 = J1 if J1 is not None else -J2
    J2 = J2 if J2 is not None else -J1
    mags = max(float(np.linalg.norm(J1)), 1e-9)
    c.close(cross2(n, J1) / mags, 0.0, "tangential", "the impulse is not along the normal", tol=1e-5)
    c.check(float(J1 @ n) <= 1e-9, "attracting", "the impulse pulls the bodies together")
    for J, r, g, wa, wb, K in ((J1, r1, g1, w1, o1, K1), (J2, r2, g2, w2, o2, K2)):
        c.close(wb - wa, cross2(r, J) / g.Iz, "angular-impulse", f"{K.name} change of yaw rate", tol=1e-5)
    e = min(g1.e, g2.e)
    after = float((vel_at(u1, o1, r1) - vel_at(u2, o2, r2)) @ n)
    c.close(after, -e * before, "restitution", f"relative normal velocity after, before {before}, e={e}", tol=1e-5)
    if math.isfinite(g1.m) and math.isfinite(g2.m):
        ke = lambda g, v, w: 0.5 * g.m * float(v @ v) + 0.5 * g.Iz * w * w
        k0 = ke(g1, v1, w1) + ke(g2, v2, w2)
        k1 = ke(g1, u1, o1) + ke(g2, u2, o2)
        c.check(k1 <= k0 * (1 + 1e-6) + 1e-9, "energy-created", f"kinetic energy {k0} -> {k1}")
    for q, g, v, u in ((q1, g1, v1, u1), (q2, g2, v2, u2)):
        if math.isfinite(g.m):
            d = 0.5 * g.m * (float(u @ u) - float(v @ v))
            c.close(q.energy_delta / (1 + abs(d)), d / (1 + abs(d)), "energy-report", f"reported energy {q.energy_delta}, is {d}",
                    tol=1e-6)
    for m, K, q, f, other, s in ((first, K1, q1, f1, f2, s1), (second, K2, q2, f2, f1, s2)):
        c.check(m.has_collided is True, "flag", "a body that collided is not marked")
        v, w = m.get_velocity(in_model_frame=False)
        if K.full_velocity:
            c.close(v, q.velocity_after[0], "applied-velocity", f"{K.name} velocity after", tol=1e-6)
            c.close(w, q.velocity_after[1], "applied-yaw-rate", f"{K.name} yaw rate after", tol=1e-6)
        elif K.name != "diffdrive":
            lv = np.array([math.cos(s.psi), math.sin(s.psi)]) @ np.array(q.velocity_after[0])
            c.close(m.get_state().vx, lv, "applied-velocity", f"{K.name} longitudinal velocity after", tol=1e-6)
        s2_ = m.get_state()
        for k in s.idx:
            if k not in ("vx", "vy", "dpsi"):
                c.check(getattr(s, k) == getattr(s2_, k), "moved", f"resolving a collision changed {k} of {K.name}")
        c.check(q.footprint.equals(f), "footprint", "reported footprint")
        c.check(q.at_fault is False, "fault", "fault without any road rules")
        hit = {str(k) for k, g in m.get_mesh().items() if g.intersects(other)}
        got = [str(k) for k, _ in q.locations]
        c.check(hit == set(got) and len(got) == len(set(got)) and got, "locations",
                f"{K.name}: impact at {got}, geometry says {sorted(hit)}")
        for k, g in q.locations:
            c.check(g.equals(m.get_mesh()[k]), "location-shape", f"{k} is reported with another shape")
    c.state((ka, kb, round(before, 6), round(float(n[0]), 6)))
    c.outcome((ka, kb, round(after, 6)))
    res = {order[0]: (u1, o1), order[1]: (u2, o2)}
    return n, p, res


def body(c, kinds, bearings, depths, psis, speeds, spins, tweak=None):
    from copy import deepcopy

    ka, kb, A, B, a, b = build(c, kinds, bearings, depths, psis, speeds, spins, tweak)
    a2, b2 = deepcopy(a), deepcopy(b)
    r1 = judge(c, ka, kb, A, B, a, b)
    r2 = judge(c, ka, kb, A, B, a2, b2, order=("b", "a"))
    if r1 is None:
        c.count("not_closing_or_unspecified")
    if r1 and r2 and np.allclose(r1[0], -r2[0], atol=1e-9) and np.allclose(r1[1], r2[1], atol=1e-9):
        for k in "ab":
            c.close(r1[2][k][0], r2[2][k][0], "order", f"velocity of {k} depends on the order of the arguments", tol=1e-6)
            c.close(r1[2][k][1], r2[2][k][1], "order", f"yaw rate of {k} depends on the order", tol=1e-6)


ALL = list(KINDS)
SOME = [("cardyn", "cardyn"), ("cardyn", "pedestrian"), ("spacecraft", "dynobs"), ("rocket", "spaceship"),
        ("car", "bikedyn"), ("truckdyn", "rocket"), ("dynobs", "diffdrive"), ("bicycle", "truck")]
DEEP = [("cardyn", "cardyn"), ("cardyn", "pedestrian"), ("truckdyn", "car"), ("truck", "pedestrian"), ("rocket", "pedestrian"),
        ("bikedyn", "truck"), ("spaceship", "car"), ("pedestrian", "spaceship"), ("dynobs", "truckdyn")]
HARNESSES = [
    dict(name="impulse", body=body, space="pair of models x headings x bearing x depth x speeds x spins",
         quick=dict(kinds=[(a, b) for a in ALL for b in ALL], bearings=[0.1, 2.3, -1.2], depths=[0.06],
                    psis=[(0.0, 0.7), (2.1, -1.3)], speeds=[(4.0, 0.0, 0.0), (2.0, 1.5, 1.0)],
                    spins=[(0.0, 0.0), (0.5, -0.8)]),
         thorough=dict(kinds=[(a, b) for a in ALL for b in ALL],
                       bearings=[0.1, 0.9, 1.7, 2.3, 3.2, 4.1, -1.2, -0.4], depths=[0.01, 0.06, 0.2],
                       psis=[(0.0, 0.7), (2.1, -1.3), (-0.9, 3.0)],
                       speeds=[(4.0, 0.0, 0.0), (2.0, 1.5, 1.0), (-1.0, 2.0, 3.0)],
                       spins=[(0.0, 0.0), (0.5, -0.8), (-2.0, 1.0)])),
    dict(name="deep", body=body, space="as impulse, with one body deep in the other: many parts hit, or one within a part",
         quick=dict(kinds=DEEP, bearings=[0.1, 1.2, 2.3, -1.2, -2.9], depths=[0.5, 0.9, 1.6], psis=[(0.0, 0.7), (2.1, -1.3)],
                    speeds=[(4.0, 1.0, 0.5)], spins=[(0.3, 0.2)]),
         thorough=dict(kinds=DEEP + [(b, a) for a, b in DEEP], bearings=[0.3 * k for k in range(21)], depths=[0.3, 0.5, 0.7, 0.9, 1.2, 1.6, 2.0],
                       psis=[(0.0, 0.7), (2.1, -1.3), (1.0, 2.9)], speeds=[(4.0, 1.0, 0.5), (1.0, -2.0, 2.0)],
                       spins=[(0.3, 0.2)])),
    dict(name="bodies", body=body, space="as impulse with scaled masses, inertias and restitution coefficients",
         quick=dict(kinds=SOME, bearings=[0.1, 2.3], depths=[0.05], psis=[(0.0, 0.7), (2.1, -1.3)],
                    speeds=[(4.0, 1.0, 0.5)], spins=[(0.3, 0.2)],
                    tweak=[((1, 1, 0.0), (1, 1, 0.9)), ((1, 1, 1.0), (1, 1, 1.0)), ((50, 50, 0.2), (1, 1, 0.1)),
                           ((1, 3, None), (math.inf, math.inf, 0.3)), ((math.inf, math.inf, 0.3), (2, 1, None))]),
         thorough=dict(kinds=SOME + [(b, a) for a, b in SOME], bearings=[0.1, 1.1, 2.3, 3.9, -0.8], depths=[0.02, 0.15],
                       psis=[(0.0, 0.7), (2.1, -1.3), (1.0, 2.9)],
                       speeds=[(4.0, 1.0, 0.5), (1.0, -2.0, 2.0)], spins=[(0.3, 0.2), (-1.0, 2.0)],
                       tweak=[((1, 1, 0.0), (1, 1, 0.9)), ((1, 1, 1.0), (1, 1, 1.0)), ((50, 50, 0.2), (1, 1, 0.1)),
                              ((1, 3, None), (math.inf, math.inf, 0.3)), ((math.inf, math.inf, 0.3), (2, 1, None)),
                              ((0.01, 0.01, 0.6), (1, 1, 0.7))])),
]
