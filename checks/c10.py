"""C10 - observation filters: latency, ghosting, line of sight, and their nestings."""
import math
from dataclasses import replace
from decimal import Decimal as D

import numpy as np
from frozendict import frozendict as fd
from shapely import affinity
from shapely.geometry import LinearRing, LineString, Point, box

from dg_commons import PlayerName
from dg_commons.perception.sensor import FullRangeSensor, VisRangeSensor
from dg_commons.sim import PlayerObservations, SimObservations
from dg_commons.sim.models.obstacles import StaticObstacle
from dg_commons.sim.models.vehicle import VehicleState
from dg_commons.sim.scenarios.structures import DgScenario
from dg_commons.sim.sim_perception import DelayedObsFilter, FovObsFilter, GhostObsFilter, IdObsFilter

from . import vislib
from .vislib import angles_in, first_hits, radial, window

vislib.install()
ASSUMPTIONS = ["a player is certainly visible when at least 2.5 ray spacings of unobstructed angle, within range and field "
               "of view, end on it; certainly hidden when no point of it is within 5 cm of what can be seen; neither is "
               "required of the cases in between",
               "one filter serves one player in one episode",
               "the collision library's polygons are replaced with its own triangles (its polygon back end is absent)"]
A, B, G = PlayerName("P1"), PlayerName("P"), PlayerName("P12")


def mk(x, y, psi=0.0, tag=0.0, L=2.0, W=1.0):
    occ = affinity.translate(affinity.rotate(box(-L / 2, -W / 2, L / 2, W / 2), psi, origin=(0, 0), use_radians=True), x, y)
    return PlayerObservations(state=VehicleState(x=x, y=y, psi=psi, vx=tag, delta=0.0), occupancy=occ)


def same(got: PlayerObservations, want: PlayerObservations):
    return got.state == want.state and got.occupancy.equals(want.occupancy)


# --- reference ---------------------------------------------------------------------------------------------------
class RefId:
    def sense(self, obs, pov):
        return obs.time, dict(obs.players), frozenset()


class RefGhost:
    def __init__(self, inner, ghost, dist):
        self.inner, self.ghost, self.dist = inner, ghost, dist

    def sense(self, obs, pov):
        t, pl, maybe = self.inner.sense(obs, pov)
        if pov == self.ghost or self.ghost not in pl:
            return t, pl, maybe
        d = math.hypot(pl[pov].state.x - pl[self.ghost].state.x, pl[pov].state.y - pl[self.ghost].state.y)
        if self.dist == 0 or d > self.dist:
            pl = {k: v for k, v in pl.items() if k != self.ghost}
            maybe = maybe - {self.ghost}
        return t, pl, maybe


class RefDelay:
    def __init__(self, inner, lat):
        self.inner, self.lat, self.hist = inner, lat, []

    def sense(self, obs, pov):
        t, pl, maybe = self.inner.sense(obs, pov)
        self.hist.append((t + self.lat, pl, maybe))
        ready = [h for h in self.hist if h[0] <= t]
        return ready[-1] if ready else self.hist[0]


class RefFov:
    """tri-state: players that may or may not be reported are returned in the third component"""

    def __init__(self, rng, fov, static):
        self.rng, self.fov, self.static = rng, fov, static

    def sense(self, obs, pov):
        me = obs.players[pov].state
        out, maybe = {pov: obs.players[pov]}, set()
        others = {k: v.occupancy for k, v in obs.players.items() if k != pov}
        res = math.atan(1 / self.rng)
        n = max(240, int(10 * 2 * math.pi / res))
        k = math.ceil(1.15 * res / (2 * math.pi / n))
        p = (me.x, me.y)
        d = first_hits(p, self.rng, self.static + list(others.values()), n)
        fov = min(self.fov, 2 * math.pi)
        full = fov > 2 * math.pi - res
        wide = np.ones(n, bool) if full else angles_in(n, me.psi, fov, 1.2 * res)
        outer = radial(p, window(d, k, np.max), wide).buffer(0.05)
        narrow = angles_in(n, me.psi, fov, 0.0) if fov < 2 * math.pi - 1e-9 else np.ones(n, bool)
        for name, occ in others.items():
            hit = np.zeros(n, bool)
            far = first_hits(p, self.rng, [occ], n)
            hit = narrow & (far < self.rng - 1e-6) & (np.abs(far - d) < 1e-7)
            longest = run = 0
            for i in range(2 * n):
                run = run + 1 if hit[i % n] else 0
                longest = max(longest, min(run, n))
            if longest * 2 * math.pi / n >= 2.5 * res:
                out[name] = obs.players[name]
            elif outer.intersects(occ):
                out[name] = obs.players[name]
                maybe.add(name)
        return obs.time, out, frozenset(maybe)


def agree(c, got, want, pov, what):
    t, pl, maybe = want
    c.compared(1 + len(pl))
    c.check(got.time == t, "time", lambda: f"{what}: stamped {got.time}, expected {t}")
    c.check(pov in got.players, "self", lambda: f"{what}: {pov} does not see itself")
    for k in got.players:
        c.check(k in pl, "sees-hidden", lambda: f"{what}: {pov} is told about {k}, which it cannot see")
        c.check(same(got.players[k], pl[k]), "content", lambda: f"{what}: {pov} is told {got.players[k].state} about {k}, "
                                                                f"expected {pl[k].state}")
    for k in pl:
        c.check(k in got.players or k in maybe, "misses-visible", lambda: f"{what}: {pov} is not told about {k}")
    if maybe:
        c.count("undecided", len(maybe))
    c.count("hidden" if len(got.players) < 3 else "all seen")


# --- latency, ghosting and their nestings, over all histories ----------------------------------------------------------
LOCS = {"near": (3.0, 0.0), "edge": (4.0, 3.0), "far": (9.0, 0.5), "same": (0.0, 0.0)}


def build(spec):
    if spec[0] == "id":
        return IdObsFilter(), RefId()
    inner, ref = build(spec[-1])
    if spec[0] == "delay":
        return DelayedObsFilter(inner, spec[1]), RefDelay(ref, spec[1])
    return GhostObsFilter(inner, G, spec[1]), RefGhost(ref, G, spec[1])


def history(c, filters, steps, depth, t0s):
    spec = c.pick(filters, "filter")
    f, ref = build(spec)
    pov = c.pick((A, G), "observer")
    t = c.pick(t0s, "t0")
    for k in range(depth):
        if k:
            t = t + c.pick(steps, f"dt{k}")
        loc = c.pick(sorted(LOCS), f"ghost{k}")
        players = {A: mk(0.0, 0.0, 0.3, k + 0.5), B: mk(-5.0, k, 0.0, k + 0.25)}
        if c.pick((True, False), f"present{k}", dev=True):
            players[G] = mk(*LOCS[loc], 0.1 * k, k + 0.125)
        if pov not in players:
            break
        obs = SimObservations(players=fd(players), time=t)
        before = dict(obs.players)
        got = f.sense(None, obs, pov)
        agree(c, got, ref.sense(obs, pov), pov, f"{spec} at {t}")
        c.check(obs.time == t and dict(obs.players) == before, "mutates", f"{spec}: the full observations were changed")
        c.step()
        c.state((spec, k, t, loc, pov))
        c.outcome((k, sorted(got.players), got.time - t, got.players[pov].state.vx))


def long_history(c, lats, steps, n):
    """many more observations than the latency is long; one ghost that comes and goes"""
    lat, step = c.pick(lats, "latency"), c.pick(steps, "step")
    inner = c.pick([("id",), ("ghost", 5.0, ("id",))], "inner")
    other = c.pick([None, D("0.1"), D("0.45")], "second_latency")
    spec = ("delay", lat, inner) if other is None else ("delay", lat, ("delay", other, inner))
    f, ref = build(spec)
    t = D(0)
    for k in range(n):
        loc = sorted(LOCS)[(k * k + k // 7) % len(LOCS)]
        obs = SimObservations(players=fd({A: mk(0.0, 0.0, 0.3, k), G: mk(*LOCS[loc], 0.1 * k, k + 0.125)}), time=t)
        got = f.sense(None, obs, A)
        agree(c, got, ref.sense(obs, A), A, f"{spec} every {step}, at {t}")
        c.step()
        t += step
    c.state((spec, step))
    c.outcome((spec, step))


ID = ("id",)
L1, L2, L3, L0 = D("0.1"), D("0.25"), D("1"), D(0)
FILTERS = [ID, ("delay", L0, ID), ("delay", L1, ID), ("delay", L2, ID), ("delay", L3, ID), ("ghost", 0, ID),
           ("ghost", 5.0, ID), ("ghost", 5, ("delay", L1, ID)), ("delay", L2, ("ghost", 5.0, ID)),
           ("delay", L1, ("delay", L2, ID)), ("delay", L2, ("ghost", 0, ID)), ("ghost", 4.0, ("ghost", 8.0, ID))]


# --- line of sight ----------------------------------------------------------------------------------------------------
STATIC = {
    "none": [], "wall": [box(3.0, -2.5, 3.4, 2.5)], "post": [Point(3.0, 1.0).buffer(0.4, quad_segs=4)],
    "line": [LineString([(3.0, -2.5), (3.2, 0.0), (3.0, 2.5)])], "ring": [LinearRing([(7, -7), (7, 7), (-5, 7), (-5, -7)])],
    "two": [box(-4.0, -3.0, -3.6, 3.0), box(2.0, 2.0, 2.3, 6.0)],
}
GRID = [(4.5, 0.0), (2.0, 2.5), (-5.5, 0.5), (6.0, 3.0), (0.5, -4.5), (11.0, 1.0), (1.6, 0.0)]


def sight(c, ranges, fovs, statics, grid, psis, shapes, wraps):
    rng, fov = c.pick(ranges, "range"), c.pick(fovs, "fov")
    static = c.pick(statics, "static")
    off = c.pick(psis, "pose")
    b, g = c.pick(grid, "B"), c.pick(grid, "G")
    if b == g:
        return
    (Lb, Wb), (Lg, Wg) = c.pick(shapes, "sizes")
    wrap = c.pick(wraps, "wrap")
    (ox, oy), psi = off

    def world(x, y):
        return (ox + x, oy + y)
    players = {A: mk(ox, oy, psi, 1.0, 1.0, 0.5), B: mk(*world(*b), 0.4, 2.0, Lb, Wb), G: mk(*world(*g), -0.2, 3.0, Lg, Wg)}
    shapes_static = [affinity.translate(s, ox, oy) for s in STATIC[static]]
    sc = DgScenario(static_obstacles=[StaticObstacle(shape=s) for s in shapes_static], scenario=None)
    for s in shapes_static + [players[B].occupancy, players[G].occupancy]:
        if s.distance(Point(ox, oy)) < 0.05:
            return
    f, ref = FovObsFilter(VisRangeSensor(range=rng, field_of_view=fov)), RefFov(rng, fov, shapes_static)
    if wrap == "ghost":
        f, ref = GhostObsFilter(f, G, 4.0), RefGhost(ref, G, 4.0)
    elif wrap == "delay":
        f, ref = DelayedObsFilter(f, L1), RefDelay(ref, L1)
    obs = SimObservations(players=fd(players), time=D(1))
    agree(c, f.sense(sc, obs, A), ref.sense(obs, A), A, f"range {rng} fov {fov:.2f} {static} {off} {wrap} B{b} G{g}")
    # the world changes: B moves on, the filter must follow the observer and the others
    obs2 = SimObservations(players=fd({A: mk(ox + 0.5, oy, psi + 0.4, 1.5, 1.0, 0.5), G: players[G],
                                       B: mk(*world(-b[0], -b[1]), 0.4, 2.5, Lb, Wb)}), time=D("1.1"))
    if any(s.distance(Point(ox + 0.5, oy)) < 0.05 for s in shapes_static + [v.occupancy for k, v in obs2.players.items()
                                                                            if k != A]):
        return
    agree(c, f.sense(sc, obs2, A), ref.sense(obs2, A), A, f"2nd: range {rng} fov {fov:.2f} {static} {off} {wrap} B{b} G{g}")
    # the observer turns where it is
    obs3 = SimObservations(players=fd({**obs2.players, A: mk(ox + 0.5, oy, psi + 2.2, 1.5, 1.0, 0.5)}), time=D("1.2"))
    agree(c, f.sense(sc, obs3, A), ref.sense(obs3, A), A, f"3rd: range {rng} fov {fov:.2f} {static} {off} {wrap} B{b} G{g}")
    c.step(3)
    c.state((rng, fov, static, off, b, g, wrap, Lb, Lg))


SIZES = [((2.0, 1.0), (2.0, 1.0)), ((8.0, 2.5), (1.5, 1.0))]
POSES = [((0.0, 0.0), 0.0), ((20.0, -10.0), 2.5)]
LONG = [((1.0, 10.0), (1.5, 1.0)), ((1.5, 1.0), (1.0, 10.0))]  # a truck across the line of sight, either player
BEHIND = [(3.0, 0.0), (7.5, 0.5), (-4.0, -1.0), (6.0, -3.0), (1.0, 6.0)]
HARNESSES = [
    dict(name="history", body=history, space="nesting of filters x all histories of time steps and positions",
         quick=dict(filters=FILTERS, steps=[D("0.1"), D("0.3")], depth=3, t0s=[D(0), D("2.5")], dev_bound=1),
         thorough=dict(filters=FILTERS, steps=[D("0.1"), D("0.05"), D("0.3")], depth=4, t0s=[D(0), D("2.5")], dev_bound=1)),
    dict(name="long_history", body=long_history, space="latency x second latency x step x ghosting, long histories",
         quick=dict(lats=[D("0.1"), D("2.05"), D("15")], steps=[D("0.05"), D("0.1")], n=400),
         thorough=dict(lats=[D(0), D("0.05"), D("0.1"), D("0.99"), D("2.05"), D("6"), D("20")],
                       steps=[D("0.01"), D("0.05"), D("0.1"), D("0.25")], n=700)),
    dict(name="sight", body=sight, space="sensor x static obstacles x poses of three players x nesting",
         quick=dict(ranges=[5.0, 12.0], fovs=[2 * math.pi, 2.0], statics=["wall", "two", "line"], grid=GRID[:6], psis=POSES,
                    shapes=SIZES[:1], wraps=["no", "ghost"]),
         thorough=dict(ranges=[3.0, 5.0, 12.0], fovs=[2 * math.pi, 4.5, 2.0, 0.8], statics=sorted(STATIC), grid=GRID,
                       psis=POSES + [((-3.0, 4.0), -3.0)], shapes=SIZES, wraps=["no", "ghost", "delay"])),
    dict(name="behind", body=sight, space="sensor x poses of a long player and of one behind it or beside it",
         quick=dict(ranges=[12.0, 20.0], fovs=[2 * math.pi, 2.0], statics=["none", "line", "ring"], grid=BEHIND, psis=POSES[1:], shapes=LONG, wraps=["no"]),
         thorough=dict(ranges=[8.0, 12.0, 20.0], fovs=[2 * math.pi, 4.5, 2.0], statics=["none", "two", "line", "ring"], grid=BEHIND + [(-6.0, -1.0), (9.0, 4.0)], psis=POSES,
                       shapes=LONG + [((7.0, 3.0), (2.0, 1.0))], wraps=["no", "ghost", "delay"])),
]
