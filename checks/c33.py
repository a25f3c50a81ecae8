"""C33: rigid motions and the geometry tools built on them; combinations of options."""
from __future__ import annotations

import cmath
import contextlib
import itertools
import math
import random
import re
import time
from collections.abc import Mapping

import numpy as np
from frozendict import frozendict
from shapely.geometry import (GeometryCollection, LinearRing, LineString, MultiLineString, MultiPoint, MultiPolygon, Point, Polygon)
from zuper_commons.types import ZValueError

import dg_commons
import dg_commons.maps.shapes_generator as sg
import dg_commons.time as dgtime
from dg_commons import (SE2_apply_T2, SE2_interpolate, SE2Transform, apply_SE2_to_shapely_geo, fd, fkeyfilter, fs, fvalmap,
                        get_distance_SE2, iterate_dict_combinations, norm_between_SE2value, relative_pose, transform_xy, valmap)
from dg_commons.geo import PoseState
from dg_commons.sim.models import extract_pose_from_state, extract_vel_from_state, kmh2ms, ms2kmh
from dg_commons.sim.models.utils import extract_2d_position_from_state, ms2mph

from checks.modellib import KINDS

ASSUMPTIONS = ["interpolation between poses that are turned by half a circle (within 1e-3) has no unique answer and is not judged"]


def wrap(a):
    return (a + math.pi) % (2 * math.pi) - math.pi


def M(x, y, th):
    return np.array([[math.cos(th), -math.sin(th), x], [math.sin(th), math.cos(th), y], [0.0, 0.0, 1.0]])


# complex numbers as an independent algebra: a pose is z -> e^{i th} z + t
class C:
    def __init__(self, x, y, th):
        self.t, self.th = complex(x, y), th

    def of(self, z):
        return cmath.exp(1j * self.th) * z + self.t


def comp(a, b):
    r = C(0, 0, a.th + b.th)
    r.t = a.of(b.t)
    return r


def inv(a):
    r = C(0, 0, -a.th)
    r.t = -cmath.exp(-1j * a.th) * a.t
    return r


def screw(g, al):
    """the motion with constant body velocity that reaches g at 1, at al"""
    th = wrap(g.th)
    if abs(th) < 1e-9:
        r = C(0, 0, 0.0)
        r.t = g.t * al
        return r
    r = C(0, 0, th * al)
    r.t = g.t * (cmath.exp(1j * th * al) - 1) / (cmath.exp(1j * th) - 1)
    return r


def is_(c, q, g, key, what, tol=1e-7):
    q = np.asarray(q, dtype=float)
    c.check(q.shape == (3, 3), key, what)
    c.close(q, M(g.t.real, g.t.imag, g.th), key, what, tol=tol * (1 + abs(g.t)))


PTS = [(0.0, 0.0), (1.5, -2.0), (-3.0, 0.25), (100.0, 7.0)]
_o = [(0, 0), (4, 0), (4, 3), (0, 3)]
GEOS = [Point(1.5, -2.0), LineString([(0, 0), (2, 1), (-1, 5)]), LinearRing(_o), Polygon(_o), Polygon(_o, [[(1, 1), (2, 1), (2, 2)]]),
        MultiPoint([(0, 1), (3, -2)]), MultiLineString([[(0, 0), (1, 1)], [(3, 0), (3, 5)]]), MultiPolygon([Polygon(_o), Polygon([(6, 6), (8, 6), (7, 9)])]),
        GeometryCollection([Point(2, 2), LineString([(0, 0), (1, 7)])]), Polygon()]


def flat(g):
    if hasattr(g, "geoms"):
        return [x for p in g.geoms for x in flat(p)]
    if g.geom_type == "Polygon":
        return [list(r.coords) for r in ([g.exterior] if not g.is_empty else []) + list(g.interiors)]
    return [list(g.coords)]


def group(c, xs, ths):
    """one pose: conversions, points, shapes"""
    x, y, th = c.pick(xs, "x"), c.pick(xs, "y"), c.pick(ths, "theta")
    cx, m = C(x, y, th), M(x, y, th)
    what = lambda: f"pose {(x, y, th)}"
    p = [x, y]
    T = SE2Transform(p, th)
    p[0] = 1e6  # the transform has its own numbers
    c.check(T.p.tolist() == [x, y] and T.theta == th, "transform", lambda: f"{T}: {what()}")
    is_(c, T.as_SE2(), cx, "as_SE2", what)
    S = SE2Transform.from_SE2(m)
    c.close(S.p, [x, y], "from_SE2", what, tol=1e-9)
    c.check(abs(wrap(S.theta - th)) < 1e-7 and abs(S.theta) <= math.pi + 1e-9, "from_SE2", lambda: f"{S.theta}: {what()}")
    P = SE2Transform.from_PoseState(PoseState(x, y, th))
    c.check(P.p.tolist() == [x, y] and P.theta == th, "from_PoseState", lambda: f"{P}: {what()}")
    I = SE2Transform.identity()
    c.check(I.p.tolist() == [0, 0] and I.theta == 0, "identity", str(I))
    I.p[0] = 5.0
    c.check(SE2Transform.identity().p.tolist() == [0, 0], "identity", "identities share their numbers")
    keep = m.copy()
    for pt in PTS:
        w = cx.of(complex(*pt))
        c.close(SE2_apply_T2(m, np.array(pt)), [w.real, w.imag], "apply_T2", what, tol=1e-8)
    for pts in (PTS, tuple(PTS[1:2]), np.array(PTS)):
        got = transform_xy(m, pts)
        c.check(len(got) == len(pts), "transform_xy", what)
        for g, pt in zip(got, pts):
            w = cx.of(complex(*pt))
            c.close(g, [w.real, w.imag], "transform_xy", what, tol=1e-8)
    for g in GEOS:
        wkt = g.wkt
        r = apply_SE2_to_shapely_geo(g, m)
        c.check(r.geom_type == g.geom_type and r.is_empty == g.is_empty, "shapely", lambda: f"{r} from {g}: {what()}")
        fg, fr = flat(g), flat(r)
        c.check([len(a) for a in fg] == [len(a) for a in fr], "shapely", lambda: f"{r} from {g}: {what()}")
        for a, b in zip(fg, fr):
            for u, v in zip(a, b):
                w = cx.of(complex(*u))
                c.close(v, [w.real, w.imag], "shapely", lambda: f"{r} from {g}: {what()}", tol=1e-8)
        c.check(abs(r.area - g.area) < 1e-6 and abs(r.length - g.length) < 1e-6 and g.wkt == wkt, "shapely", lambda: f"{r} from {g}: {what()}")
    c.check((m == keep).all(), "arguments", "the pose has changed")
    c.step()
    c.state((x, y, th))
    c.outcome(rnd3(SE2_apply_T2(m, np.array(PTS[1]))))


def rnd3(a):
    return tuple(round(float(v), 6) for v in np.ravel(a))


def pair(c, xs, ths, als):
    """two poses (and a frame): relative pose, distances, interpolation"""
    a = (c.pick(xs, "x0"), c.pick(xs, "y0"), c.pick(ths, "theta0"))
    b = (c.pick(xs, "x1"), c.pick(xs, "y1"), c.pick(ths, "theta1"))
    ca, cb, ma, mb = C(*a), C(*b), M(*a), M(*b)
    what = lambda: f"from {a} to {b}"
    g = comp(inv(ca), cb)
    is_(c, relative_pose(ma, mb), g, "relative", what)
    is_(c, ma @ relative_pose(ma, mb), cb, "relative", what)
    d = abs(ca.t - cb.t)
    for o, w in ((None, d), (1, abs((ca.t - cb.t).real) + abs((ca.t - cb.t).imag)), (np.inf, max(abs((ca.t - cb.t).real), abs((ca.t - cb.t).imag)))):
        c.close(norm_between_SE2value(ma, mb, ord=o), w, "norm", what, tol=1e-8)
    turn = abs(wrap(g.th))
    if turn > math.pi - 1e-3:
        c.state((a, b))
        c.outcome("half a turn")
        return
    arc = d if turn < 1e-9 else d * (turn / 2) / math.sin(turn / 2)
    for p, q in ((ma, mb), (mb, ma)):
        c.close(get_distance_SE2(p, q), arc, "distance", what, tol=1e-7 * (1 + arc))
    ka, kb = ma.copy(), mb.copy()
    for al in als:
        want = comp(ca, screw(g, float(al)))
        is_(c, SE2_interpolate(ma, mb, al), want, "interpolate", lambda: f"{al} {what()}")
        if 0 <= al <= 1:
            is_(c, SE2_interpolate(mb, ma, 1 - al), want, "interpolate-back", lambda: f"{al} {what()}")
            c.close(get_distance_SE2(ma, SE2_interpolate(ma, mb, al)), float(al) * arc, "distance-along", lambda: f"{al} {what()}", tol=1e-7 * (1 + arc))
            # poses seen from elsewhere
            f = M(-3.0, 8.0, 2.0)
            c.close(SE2_interpolate(f @ ma, f @ mb, al), f @ SE2_interpolate(ma, mb, al), "interpolate-frame", lambda: f"{al} {what()}", tol=1e-6)
    c.check((ma == ka).all() and (mb == kb).all(), "arguments", "the poses have changed")
    c.step()
    c.state((a, b))
    c.outcome(rnd3(arc))


def states(c, xs, ths, vs):
    """poses, positions, speeds of the states of all models; units"""
    kind = c.pick(list(KINDS), "kind")
    x, y, th, v = c.pick(xs, "x"), c.pick(xs, "y"), c.pick(ths, "psi"), c.pick(vs, "vx")
    s = KINDS[kind].x0(x, y, th, vx=v)
    is_(c, extract_pose_from_state(s), C(x, y, th), "pose", lambda: str(s))
    c.close(extract_2d_position_from_state(s), [x, y], "position", lambda: str(s))
    if "vx" in KINDS[kind].state.idx:
        c.check(extract_vel_from_state(s) == v, "speed", lambda: str(s))
    else:
        try:
            extract_vel_from_state(s)
            c.fail("speed", f"{s} has no speed")
        except ZValueError:
            pass

    class Other:
        pass

    o = Other()
    o.x, o.y = x, y
    for f, n in ((extract_pose_from_state, "theta"), (extract_vel_from_state, None)):
        try:
            f(o)
            c.fail("pose", "no such component")
        except ZValueError:
            pass
    o.theta = th
    is_(c, extract_pose_from_state(o), C(x, y, th), "pose", lambda: str(s))
    c.close([ms2kmh(v), kmh2ms(ms2kmh(v)), ms2mph(v), kmh2ms(36.0)], [3.6 * v, v, v / 0.44704, 10.0], "units", str(v), tol=1e-4 * (1 + abs(v)))
    c.step()
    c.state((kind, x, y, th, v))
    c.outcome(rnd3(extract_pose_from_state(s)))


def options(c, keys, sizes, inner):
    """all combinations of options of some players, each once; maps that cannot be changed"""
    n = c.pick(sizes, "players")
    d = {}
    for i in range(n):
        vals = c.pick(inner, f"options {i}")
        d[keys[i]] = c.pick([list, tuple, frozenset], f"type {i}")(vals) if i == 0 else list(vals)
    if c.flag("reversed"):
        d = dict(reversed(list(d.items())))
    src = fd(d) if c.flag("frozen") else d
    copy = dict(d)
    got = list(iterate_dict_combinations(src))
    want = [dict(zip(d, v)) for v in itertools.product(*[list(d[k]) for k in d])]
    c.compared(len(want))
    c.check(len(got) == len(want) and all(dict(g) == w for g, w in zip(got, want)), "combinations", lambda: f"{got} instead of {want}")
    c.check(all(isinstance(g, Mapping) and hash(g) == hash(g) for g in got), "combinations", "combinations can be changed")
    c.check(d == copy, "arguments", "the options have changed")
    for keep in itertools.chain.from_iterable(itertools.combinations(keys, k) for k in range(3)):
        f = fkeyfilter(lambda k: k in keep, src)
        c.check(dict(f) == {k: v for k, v in d.items() if k in keep} and isinstance(f, frozendict), "keyfilter", lambda: f"{f} of {d}")
    m, fm = valmap(len, src), fvalmap(len, src)
    c.check(dict(m) == dict(fm) == {k: len(v) for k, v in d.items()} and isinstance(fm, frozendict) and isinstance(m, dict), "valmap", lambda: f"{m} {fm}")
    frozen = fd(d)
    try:
        frozen["new"] = 1
        c.fail("frozen", "a frozen map was changed")
    except TypeError:
        pass
    d["new"] = 1
    c.check("new" not in frozen and dict(frozen) == copy, "frozen", "a frozen map follows its source")
    c.check(fs([1, 2, 2]) == frozenset({1, 2}), "frozen", "set")
    c.step()
    c.state(tuple((k, tuple(v)) for k, v in copy.items()))
    c.outcome(len(want))


@contextlib.contextmanager
def replaced(what, *users):
    """stand-ins for functions of a module, also where they have been imported by name"""
    undo = []
    try:
        for (mod, name), new in what.items():
            old = getattr(mod, name)
            for m in (mod, *users):
                for k, v in list(vars(m).items()):
                    if v is old:
                        undo.append((m, k, v))
                        setattr(m, k, new)
        yield
    finally:
        for m, k, v in reversed(undo):
            setattr(m, k, v)


class Dice:
    """in the place of the module random: any value in the range may come"""

    def __init__(self, c, us, gs):
        self.c, self.us, self.gs = c, us, gs
        self.u, self.g = [], []

    def uniform(self, a, b):
        self.u.append(self.c.pick(self.us, "uniform", dev=True))
        return a + (b - a) * self.u[-1]

    def gauss(self, mu, sigma):
        self.g.append(self.c.pick(self.gs, "gauss", dev=True))
        return mu + sigma * self.g[-1]


def wrap3(a):
    return (a + math.pi) % (2 * math.pi) - math.pi


def star(c, ns, irr, spk, us, gs, dev=None):
    """random star-shaped polygons"""
    n, ir, sp, R = c.pick(ns, "vertices"), c.pick(irr, "irregularity"), c.pick(spk, "spikiness"), c.pick([1000.0, 1e5], "radius")
    cx, cy = c.pick([0.0, 5000.0, -2e5], "cx"), c.pick([0.0, -300.0], "cy")
    dice = Dice(c, us, gs)
    with replaced({(random, "uniform"): dice.uniform, (random, "gauss"): dice.gauss, (random, "normalvariate"): dice.gauss}, sg):
        pts = sg.create_random_starshaped_polygon(cx, cy, R, ir, sp, n)
    what = lambda: f"{n} vertices around {(cx, cy)}, radius {R}, irregularity {ir}, spikiness {sp}: {pts}"
    c.check(len(pts) == n, "vertices", what)
    rel = [complex(x - cx, y - cy) for x, y in pts]
    c.check(all(abs(z) <= 2 * R + 2 for z in rel), "radius", what)
    s = min(max(sp, 0.0), 1.0)
    if s == 0.0:
        c.check(all(abs(abs(z) - R) <= 2 for z in rel), "radius", what)
    live = [z for z in rel if abs(z) > 0.05 * R]
    tot = 0.0
    eps = 4.0 / (0.05 * R)
    if len(live) == n:
        for a, b in zip(live, live[1:] + live[:1]):
            step = cmath.phase(b / a)
            if step < -eps:
                step += 2 * math.pi
            tot += step
            if ir <= 0 and n > 2:
                c.check(abs(step - 2 * math.pi / n) < 2 * eps, "regular", what)
        c.check(abs(tot - 2 * math.pi) < 0.05 * n, "turning", lambda: f"turns by {tot}: {what()}")
        # one of the draws decides where it starts, the others how the angles spread; the deviations of the radius are as large as asked for
        i = min(max(ir, 0.0), 1.0)
        c.check(len(dice.u) == n + 1 and len(dice.g) == n, "draws", what)
        got = sorted((cmath.phase(b / a) + eps) % (2 * math.pi) - eps for a, b in zip(live, live[1:] + live[:1]))
        near = lambda xs, ys, tol: all(abs(x - y) <= tol for x, y in zip(xs, ys))
        fits = False
        for j, u0 in enumerate(dice.u):
            w = [1 - i + 2 * i * u for u in dice.u[:j] + dice.u[j + 1:]]
            if sum(w) == 0 or abs(wrap3(cmath.phase(live[0]) - 2 * math.pi * u0)) > eps:
                continue
            fits = fits or near(got, sorted(2 * math.pi * x / sum(w) for x in w), 2 * eps) or n < 3
        c.check(fits, "spread", lambda: f"{dice.u}: {what()}")
        c.check(near(sorted(abs(z) for z in rel), sorted(min(max(R * (1 + s * g), 0.0), 2 * R) for g in dice.g), 2.0), "spread-radius", lambda: f"{dice.g}: {what()}")
    c.step()
    c.compared(n)
    c.state((n, ir, sp, R, cx, cy, tuple(pts)))
    c.outcome(n)


def stars4(c, xs, ps):
    x, y, p, t = c.pick(xs, "x"), c.pick(xs, "y"), c.pick(ps, "p"), c.pick(ps, "t")
    pts = sg.create_star_polygon(x, y, p, t)
    c.check(len(pts) == 8, "star", str(pts))
    rel = [complex(a - x, b - y) for a, b in pts]
    want = [p * 1j ** k for k in range(4)] + [t * (1 + 1j) * 1j ** k for k in range(4)]
    c.check(all(min(abs(z - w) for z in rel) < 1e-9 for w in want), "star", lambda: f"{pts} for {(x, y, p, t)}")
    poly = Polygon(pts)
    c.check(poly.is_valid and poly.contains(Point(x, y)), "star", lambda: f"{pts} for {(x, y, p, t)}")
    c.close(poly.area, 8 * 0.5 * p * t, "star", lambda: f"area {poly.area} for {(x, y, p, t)}")
    c.step()
    c.state((x, y, p, t))
    c.outcome(rnd3(poly.area))


def timed(c):
    """timing a function changes nothing about it"""
    msgs = []
    nested, boom = c.flag("nested"), c.flag("exception")
    steps = [c.pick([0.0, 1.5], "time") for _ in range(2)]
    clock = [10.0]
    tick = lambda: clock[0]
    log = lambda m, *a, **k: msgs.append(f"{m} {a} {k}")
    lg = dg_commons.logger
    keep = {n: getattr(lg, n) for n in ("info", "warn", "warning", "error", "debug")}
    for n in keep:
        setattr(lg, n, log)
    try:
        with replaced({(time, n): tick for n in ("process_time", "perf_counter", "monotonic")}, dgtime):
          @dgtime.time_function
          def inner(a, *, b=2):
              """docs"""
              clock[0] += steps[0]
              if boom:
                  raise KeyError(a)
              return (a, b)

          @dgtime.time_function
          def outer(a):
              clock[0] += steps[1]
              return inner(a, b=7)

          c.check(inner.__name__ == "inner" and inner.__doc__ == "docs", "wrapper", inner.__name__)
          try:
              r = outer(3) if nested else inner(3)
              c.check(not boom and r == ((3, 7) if nested else (3, 2)), "result", str(r))
          except KeyError:
              c.check(boom, "result", "exception")
          want = [("inner", steps[0])] + ([("outer", steps[0] + steps[1])] if nested else [])
          c.check(len(msgs) == len(want) and all(n in m and any(abs(float(v) - t) < 1e-3 for v in re.findall(r"\d+\.?\d*(?:e-?\d+)?", m)) for (n, t), m in zip(want, msgs)), "log", lambda: f"{msgs} instead of {want}")
    finally:
        for n, m in keep.items():
            setattr(lg, n, m)
    c.step()
    c.compared(len(want))
    c.state((nested, boom, tuple(steps)))
    c.outcome(tuple(msgs and [len(msgs)]))


PI = math.pi
TH = [0.0, 0.3, -1.2, PI / 2, 2.5, PI, -PI, 3 * PI / 2, -3.0]
HARNESSES = [
    dict(name="group", body=group, space="x x y x theta x points and shapes",
         quick=dict(xs=[0.0, 3.0, -120.5], ths=TH), thorough=dict(xs=[0.0, 3.0, -120.5, 1e4, 1e-6], ths=TH + [PI / 3, 7.0, -10.0, 1e-9, 2 * PI])),
    dict(name="pair", body=pair, space="pose x pose x fraction",
         quick=dict(xs=[0.0, -12.5], ths=TH, als=[0, 0.25, 0.5, 1, 1.5, -0.5]), thorough=dict(xs=[0.0, 3.0, -120.5], ths=TH + [0.3 + 1e-6, 5.0, 1e-4], als=[0, 0.1, 0.25, 0.5, 0.9, 1, 2.0, -1.0])),
    dict(name="states", body=states, space="kind x pose x speed", args=dict(xs=[0.0, 3.0, -12.5], ths=TH, vs=[0.0, 4.2, -1.5])),
    dict(name="options", body=options, space="players x options x types x order",
         quick=dict(keys=["p1", "p2", "p3"], sizes=[0, 1, 2, 3], inner=[(), ("a",), ("a", "b"), (0, None, "c")]),
         thorough=dict(keys=["p1", "p2", "p3", "p4"], sizes=[0, 1, 2, 3, 4], inner=[(), ("a",), ("a", "b"), (0, None, "c")])),
    dict(name="star", body=star, space="vertices x irregularity x spikiness x all outcomes of the dice",
         quick=dict(ns=[3, 4], irr=[0.0, 0.6, 2.0], spk=[0.0, 0.3, -1.0], us=[0.1, 0.9], gs=[-1.0, 1.0]),
         thorough=dict(ns=[3, 4, 5], irr=[0.0, 0.6, 1.0, 2.0], spk=[0.0, 0.3, 1.0, -1.0, 3.0], us=[0.1, 0.9], gs=[-1.0, 1.0])),
    dict(name="star4", body=stars4, space="centre x extensions", args=dict(xs=[0.0, 3.5, -100.0], ps=[0.5, 1.0, 1.9])),
    dict(name="timed", body=timed, space="nesting x exception x clock", args=dict()),
]
