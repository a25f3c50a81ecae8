"""C14 - trajectories: merging, upsampling, rigid motion and the commands that follow them."""
import math
from decimal import Decimal as D
from fractions import Fraction as F

import numpy as np
from zuper_commons.types import ZValueError

from dg_commons import SE2Transform
from dg_commons.planning.trajectory import Trajectory, commands_plan_from_trajectory
from dg_commons.sim.models.vehicle import VehicleCommands, VehicleState

ASSUMPTIONS = ["angles are compared modulo a full turn after a rigid motion",
               "two trajectories are connectable when speed and steering angle agree to 1e-3; values on that limit are not "
               "explored"]
S = [VehicleState(x=0.0, y=0.0, psi=0.0, vx=1.0, delta=0.0), VehicleState(x=1.0, y=-2.0, psi=0.5, vx=1.0, delta=0.1),
     VehicleState(x=2.0, y=3.0, psi=3.1, vx=2.5, delta=0.1), VehicleState(x=-1.0, y=0.5, psi=-3.0, vx=2.5004, delta=0.1004),
     VehicleState(x=5.0, y=5.0, psi=-1.5, vx=1.0, delta=-0.2)]


def vec(s):
    return [s.x, s.y, s.psi, s.vx, s.delta]


def samples(c, kind, maxlen, states, minlen=0, t_lo=0, name="a"):
    n = c.choose(maxlen - minlen + 1, f"len_{name}") + minlen
    step = {"float": 0.3, "int": 1, "Decimal": D("0.3")}[kind]
    t = t_lo
    out = []
    for i in range(n):
        if i:
            t = t + step * (1 + (i % 2))
        out.append((t, S[c.pick(states, f"{name}{i}")]))
    return out


def mk(xs):
    return Trajectory(timestamps=[t for t, _ in xs], values=[v for _, v in xs])


def eq(tr, want):
    return [float(t) for t in tr.timestamps] == [float(t) for t, _ in want] and \
        all(a == b for a, b in zip(tr.values, [v for _, v in want]))


def joined(c, kinds, maxlen, states, gaps):
    """merge and merge_unsafe over all pairs of short trajectories"""
    kind = c.pick(kinds, "kind")
    zero = D(0) if kind == "Decimal" else 0
    a = samples(c, kind, maxlen, states, t_lo=zero, name="a")
    gap = c.pick(gaps, "gap")
    gap = D(str(gap)) if kind == "Decimal" else gap
    b = samples(c, kind, maxlen, states, t_lo=(a[-1][0] if a else zero) + gap, name="b")
    A, B = mk(a), mk(b)
    la, lb = list(a), list(b)
    c.check(A.is_empty() == (not a) and B.is_empty() == (not b), "empty", "")
    can = not a or not b or (abs(a[-1][1].vx - b[0][1].vx) < 1e-3 and abs(a[-1][1].delta - b[0][1].delta) < 1e-3)
    c.compared(3)
    c.check(A.is_connectable(B) == can, "connectable", lambda: f"{a[-1:]} then {b[:1]}: {A.is_connectable(B)}")
    want = a + (b[1:] if a else b)
    increasing = all(F(p[0]) < F(q[0]) for p, q in zip(want, want[1:]))
    try:
        m = A.merge(B)
        c.check(can and increasing, "merge-accepts", lambda: f"{a} + {b}")
        c.check(isinstance(m, Trajectory) and eq(m, want), "merge", lambda: f"{a} + {b} = {m}")
    except (AssertionError, ZValueError):
        c.check(not (can and increasing), "merge-refuses", lambda: f"{a} + {b}")
    if b:
        close = not a or abs(gap) <= 1e-3
        try:
            m = A.merge_unsafe(B)
            c.check(close and increasing, "unsafe-accepts", lambda: f"{a} + {b}")
            c.check(isinstance(m, Trajectory) and eq(m, want), "merge_unsafe", lambda: f"{a} + {b} = {m}")
        except (AssertionError, ZValueError):
            c.check(not (close and increasing), "unsafe-refuses", lambda: f"{a} + {b}")
    c.check(eq(A, la) and eq(B, lb), "mutates", "merging changed its operands")
    c.state((kind, [float(t) for t, _ in a + b], len(a), [id_(s) for _, s in a + b]))
    c.outcome((can, len(a), len(b), float(gap), increasing))


def id_(s):
    return S.index(s)


def derived(c, kinds, maxlen, states, ups, motions):
    kind = c.pick(kinds, "kind")
    zero = D(0) if kind == "Decimal" else 0
    a = samples(c, kind, maxlen, states, minlen=1, t_lo=c.pick((zero, zero + 2), "t0"))
    A = mk(a)
    n = c.pick(ups, "n")
    u = A.upsample(n)
    c.check(isinstance(u, Trajectory), "type", str(type(u)))
    want_t, want_v = [], []
    for (t0, v0), (t1, v1) in zip(a, a[1:]):
        for i in range(n + 1):
            w = i / (n + 1)
            want_t.append(float(F(t0) + (F(t1) - F(t0)) * i / (n + 1)))
            want_v.append((np.array(vec(v0)) * (1 - w) + np.array(vec(v1)) * w).tolist())
    want_t.append(float(a[-1][0]))
    want_v.append(vec(a[-1][1]))
    c.close([float(t) for t in u.timestamps], want_t, "upsample", lambda: f"{a} by {n}", tol=1e-9)
    c.close([vec(v) for v in u.values], want_v, "upsample", lambda: f"{a} by {n}", tol=1e-8)
    for t, v in a:
        c.check(u.at(t) == v, "upsample", lambda: f"the original sample at {t} is lost")
    path = A.as_path()
    c.check(len(path) == len(a), "path", "")
    for p, (_, v) in zip(path, a):
        c.close([*p.p, p.theta], [v.x, v.y, v.psi], "path")
    (tx, ty), th = c.pick(motions, "motion")
    moved = A.apply_SE2transform(SE2Transform([tx, ty], th))
    c.check(tuple(moved.timestamps) == tuple(A.timestamps), "motion", "timestamps changed")
    for v, (_, o) in zip(moved.values, a):
        c.close([v.x, v.y], [tx + o.x * math.cos(th) - o.y * math.sin(th), ty + o.x * math.sin(th) + o.y * math.cos(th)],
                "motion", lambda: f"{o} by {tx, ty, th}", tol=1e-9)
        c.close([math.cos(v.psi), math.sin(v.psi)], [math.cos(o.psi + th), math.sin(o.psi + th)], "motion",
                lambda: f"{o} by {tx, ty, th}", tol=1e-9)
        c.check((v.vx, v.delta) == (o.vx, o.delta), "motion", lambda: f"{o} -> {v}")
    plan = commands_plan_from_trajectory(A)
    c.compared(len(a))
    c.check(len(plan) == len(a) - 1, "plan", lambda: f"{len(plan)} commands for {len(a)} states")
    v, d = a[0][1].vx, a[0][1].delta
    for (t, u_), (t0, v0), (t1, v1) in zip(plan, a, a[1:]):
        c.check(isinstance(u_, VehicleCommands) and float(t) == float(t0), "plan", lambda: f"{t} {u_}")
        h = float(F(t1) - F(t0))
        v, d = v + u_.acc * h, d + u_.ddelta * h
        c.close([v, d], [v1.vx, v1.delta], "plan", lambda: f"following the plan of {a}", tol=1e-9)
    c.state((kind, n, tx, th, [float(t) for t, _ in a], [id_(s) for _, s in a]))
    c.outcome((len(u), len(plan)))
    c.step(len(u))


MOTIONS = [((0.0, 0.0), 0.0), ((1.0, -2.0), 1.2), ((-5.0, 0.5), 3.0), ((0.0, 4.0), -2.2), ((2.5, -1.0), 0.0)]
HARNESSES = [
    dict(name="joined", body=joined, space="all pairs of trajectories x time gap",
         quick=dict(kinds=["float", "Decimal", "int"], maxlen=2, states=[0, 1, 2, 3, 4], gaps=[0, 1, -1, 0.5, 0.0005]),
         thorough=dict(kinds=["float", "Decimal", "int"], maxlen=3, states=[0, 1, 2, 3], gaps=[0, 1, -1, 0.5, 0.0005, 0.01])),
    dict(name="derived", body=derived, space="all short trajectories x upsampling factor x rigid motion",
         quick=dict(kinds=["float", "Decimal", "int"], maxlen=3, states=[0, 1, 2, 3, 4], ups=[0, 1, 2, 3], motions=MOTIONS[:3]),
         thorough=dict(kinds=["float", "Decimal", "int"], maxlen=4, states=[0, 1, 2, 3, 4], ups=[0, 1, 2, 3, 5],
                       motions=MOTIONS)),
    dict(name="fine", body=derived, space="longer trajectories x many inserted samples x all motions",
         quick=dict(kinds=["float", "Decimal", "int"], maxlen=6, states=[1, 3], ups=[7, 9, 30], motions=MOTIONS),
         thorough=dict(kinds=["float", "Decimal", "int"], maxlen=8, states=[1, 3], ups=[4, 6, 8, 16, 64], motions=MOTIONS)),
]
