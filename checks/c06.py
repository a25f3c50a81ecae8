"""C06 - which bodies collide: every closing overlap is reported, nothing else is."""
import math
from decimal import Decimal as D

import numpy as np
from shapely import affinity
from shapely.geometry import LinearRing, LineString, Point, Polygon, box

from dg_commons import PlayerName
from dg_commons.sim.models.obstacles import StaticObstacle
from dg_commons.sim.models.obstacles_dyn import DynObstacleModel, DynObstacleState
from dg_commons.sim.models.obstacles import DynObstacleParameters, ObstacleGeometry
from dg_commons.sim.scenarios.structures import DgScenario
from dg_commons.sim.simulator import SimContext
from dg_commons.sim.simulator_structures import SimParameters
from dg_commons.sim.utils import run_simulation

from .geomlib import SHAPES, contact, place, vel_at
from .simlib import INF, TAgent, TCmd, TGeo, TGoal, TModel

ASSUMPTIONS = [
    "harness-owned rigid bodies whose footprint and velocity are set directly; one collision check per run",
    "configurations where an outline vertex of one body lies (within 1e-7) on the other's outline, or whose outlines "
    "cross more than twice, are only required not to crash and to give at most one report",
]


class Body(TModel):
    """stays where it is; its velocity is whatever was set last"""

    def __init__(self, name, shape, x, y, psi, vel, omega, m):
        super().__init__(name, x, y, shape=affinity.rotate(shape, psi, origin=(0, 0), use_radians=True), m=m)
        self.vel, self.omega = np.array(vel, dtype=float), omega
        self.log = []

    def update(self, commands, dt):
        pass

    def get_velocity(self, in_model_frame):
        return np.array(self.vel), self.omega

    def set_velocity(self, vel, omega, in_model_frame):
        self.log.append((np.array(vel), omega))
        self.vel, self.omega = np.array(vel), omega


DT = D("0.1")


def one_check(models: dict, obstacles=(), missions=None, steps=1, order=None):
    rec = []
    players = {n: TAgent(n, lambda k, obs: TCmd(0.0, k), rec) for n in (order or models)}
    ctx = SimContext(
        dg_scenario=DgScenario(static_obstacles=[StaticObstacle(o) for o in obstacles] or None),
        models={n: models[n] for n in (order or models)}, players=players,
        param=SimParameters(dt=DT, dt_commands=DT, max_sim_time=DT * steps, sim_time_after_collision=D(100)),
        missions=missions or {},
    )
    return run_simulation(ctx)


def closing(a: Body, b_vel, b_omega, b_cog, n, p):
    ra = p - np.array([a._state.x, a._state.y])
    rb = p - np.array(b_cog)
    return float((vel_at(a.vel, a.omega, ra) - vel_at(b_vel, b_omega, rb)) @ n)


def verdict(exp, rel):
    """how many reports this overlap must give: 0, 1 or None (not specified)"""
    if exp[0] == "none":
        return 0
    if exp[0] == "undefined":
        return 1
    if exp[0] == "contact":
        return None if abs(rel) < 1e-9 and rel != 0 else (1 if rel >= 0 else 0)
    return None


def untouched(c, b, vel, omega, key):
    c.check(np.array_equal(b.vel, vel) and b.omega == omega and not b.log, key + "-velocity",
            lambda: f"{b.name} was not part of a resolved collision but its velocity went from {vel},{omega} to "
                    f"{b.vel},{b.omega}")
    c.check(b.has_collided is False, key + "-flag", lambda: f"{b.name} did not collide but has_collided is set")


def pair(c, shapes, dists, bearings, psis, vels, omegas, swap):
    sa, sb = c.pick(shapes, "shapes")
    th, d, psi = c.pick(bearings, "bearing"), c.pick(dists, "distance"), c.pick(psis, "psi_B")
    off = np.array([3.0, -2.0])
    xb = off + d * np.array([math.cos(th), math.sin(th)])
    A, B = SHAPES[sa], SHAPES[sb]
    fa, fb = place(A, *off, 0.15), place(B, *xb, psi)
    exp = contact(fa, fb)
    order = c.pick(swap, "order")
    if order == "BA":
        exp = contact(fb, fa)
    c.count(exp[0])
    va = c.pick(vels if exp[0] != "none" else vels[-1:], "v_A")
    w = c.pick(omegas if exp[0] != "none" else omegas[-1:], "omega")
    vb = np.array([0.4, -0.3])
    wb = -0.3
    if va == SLOW:  # nearly at rest relative to each other
        va, w, wb = tuple(vb + 0.02 * np.array([-math.cos(th + 0.3), -math.sin(th + 0.3)])), 0.0, 0.0
    a = Body("A", A, *off, 0.15, va, w, 10.0)
    b = Body("B", B, *xb, psi, vb, wb, 30.0)
    first, second = (a, b) if order == "AB" else (b, a)
    rel = None
    if exp[0] == "contact":
        rel = closing(first, second.vel, second.omega, (second._state.x, second._state.y), exp[1], exp[2])
    ctx = one_check(dict(A=a, B=b), order=list(order))
    want = verdict(exp, rel)
    got = ctx.collision_reports
    c.compared()
    if want is not None:
        c.check(len(got) == want, "pair-count",
                lambda: f"{len(got)} reports, expected {want}: {exp} closing speed {rel}; A={fa.wkt} B={fb.wkt}")
    else:
        c.check(len(got) <= 1, "pair-count", f"{len(got)} reports for a single pair")
    for r in got:
        c.check(set(r.players) == {"A", "B"} and r.at_time == DT, "pair-report",
                f"report about {set(r.players)} at {r.at_time}")
        if exp[0] == "contact":
            c.check(all(v is not None for v in r.players.values()) and r.impact_point is not None, "pair-empty",
                    "the contact is well defined but the report is empty")
            c.close(r.impact_normal, exp[1], "pair-normal", "impact normal", tol=1e-6)
            c.close(r.impact_point.coords[0], exp[2], "pair-point", "impact point", tol=1e-6)
            c.check(a.has_collided and b.has_collided, "pair-flags", "colliding bodies are not marked as collided")
    c.check(ctx.first_collision_ts == (DT if got else INF), "first-collision",
            f"first collision at {ctx.first_collision_ts} with {len(got)} reports")
    if not got:
        untouched(c, a, np.array(va), w, "idle")
        untouched(c, b, vb, wb, "idle")
    c.state((sa, sb, th, d, psi, order))
    c.outcome((exp[0], len(got)))


TYPES = {
    "polygon": Polygon([(-0.5, -0.4), (0.6, -0.3), (0.1, 0.7)]),
    "box": box(-0.3, -2.5, 0.3, 2.5),
    "ring": LinearRing([(-0.2, -2.5), (6, -2.5), (6, 2.5), (-0.2, 2.5)]),
    "ring_seam": LinearRing([(-0.2, 0.1), (-0.2, -2.5), (6, -2.5), (6, 2.5), (-0.2, 2.5)]),
    "segment": LineString([(0.05, -3.0), (-0.1, 3.0)]),
    "polyline": LineString([(0.5, -3.0), (-0.1, -0.5), (-0.1, 1.0), (0.4, 3.0)]),
    "round": Point(0, 0).buffer(0.6),
    "tiny": Point(0, 0).buffer(0.04),
}


def environment(c, shapes, at, offs, psis, vels, omegas):
    """one body at each of many obstacles of different kinds"""
    names = list(TYPES)
    spots = {k: (20.0 * (i % 3) - 17.0, 23.0 * (i // 3) - 11.0) for i, k in enumerate(names)}
    obstacles = {k: affinity.translate(TYPES[k], *spots[k]) for k in names}
    k = c.pick(at, "obstacle")
    s = c.pick(shapes, "shape")
    o = c.pick(offs, "offset")
    psi = c.pick(psis, "psi")
    x, y = spots[k][0] + o[0], spots[k][1] + o[1]
    fa = place(SHAPES[s], x, y, psi)
    exp = {n: contact(fa, g) for n, g in obstacles.items()}
    if sum(1 for e in exp.values() if e[0] != "none") > 1:
        from mc.core import HarnessError

        raise HarnessError("obstacles are meant to be far apart")
    e = exp[k]
    c.count(e[0])
    v = c.pick(vels if e[0] != "none" else vels[-1:], "v")
    w = c.pick(omegas if e[0] != "none" else omegas[-1:], "omega")
    a = Body("A", SHAPES[s], x, y, psi, v, w, 12.0)
    rel = None
    if e[0] == "contact":
        rel = float(vel_at(a.vel, w, e[2] - np.array([x, y])) @ e[1])
    ctx = one_check(dict(A=a), obstacles=list(obstacles.values()))
    want, got = verdict(e, rel), ctx.collision_reports
    c.compared()
    if want is not None:
        c.check(len(got) == want, "env-count",
                lambda: f"{len(got)} reports with obstacle {k}, expected {want}: {e} closing {rel} A={fa.wkt} "
                        f"O={obstacles[k].wkt}")
    else:
        c.check(len(got) <= 1, "env-count", f"{len(got)} reports for a single contact")
    for r in got:
        c.check(r.at_time == DT and "A" in r.players, "env-report", f"report about {set(r.players)} at {r.at_time}")
        if e[0] == "contact":
            c.check(r.players["A"] is not None, "env-empty", "the contact is well defined but the report is empty")
            c.close(r.impact_normal, e[1], "env-normal", "impact normal", tol=1e-6)
            c.close(r.impact_point.coords[0], e[2], "env-point", "impact point", tol=1e-6)
            c.check(a.has_collided is True, "env-flag", "the colliding body is not marked as collided")
    c.check(ctx.first_collision_ts == (DT if got else INF), "first-collision",
            f"first collision at {ctx.first_collision_ts} with {len(got)} reports")
    if not got:
        untouched(c, a, np.array(v), w, "idle")
    c.state((k, s, o, psi))
    c.outcome((e[0], len(got)))


def crowd(c, n, spots, shapes, vels, orders):
    """an unmovable body among several others: each pair on its own; bodies that are not in contact are not involved"""
    order = c.pick(orders, "order")
    hub = Body("H", SHAPES["circle"], 0.0, 0.0, 0.1, (0, 0), 0.0, math.inf)
    hub.geo = TGeo(m=math.inf, Iz=math.inf, e=0.5, color="red")
    models = {"H": hub}
    want, unspec = [], False
    init = {}
    for i in range(n):
        sp = c.pick(spots, f"spot{i}")
        th = 2 * math.pi * i / n + 0.3
        s = c.pick(shapes, f"shape{i}")
        v = c.pick(vels, f"v{i}")  # along the line to the hub
        x, y = sp * math.cos(th), sp * math.sin(th)
        vel = np.array([-v * math.cos(th), -v * math.sin(th)])
        nm = "PQRS"[i]
        m = Body(nm, SHAPES[s], x, y, 0.7 * i, vel, 0.0, 10.0)
        models[nm] = m
        init[nm] = np.array(vel)
    names = list(models)
    names = [names[i] for i in order[:len(names)]]
    far_pairs = [(p, q) for i, p in enumerate(names) for q in names[i + 1:] if "H" not in (p, q)]
    for p, q in far_pairs:
        if contact(models[p].get_footprint(), models[q].get_footprint())[0] != "none":
            from mc.core import Prune

            raise Prune
    for i, p in enumerate(names):
        for q in names[i + 1:]:
            if "H" not in (p, q):
                continue
            a, b = models[p], models[q]
            e = contact(a.get_footprint(), b.get_footprint())
            rel = closing(a, b.vel, b.omega, (b._state.x, b._state.y), e[1], e[2]) if e[0] == "contact" else None
            w = verdict(e, rel)
            if w is None:
                unspec = True
            elif w:
                want.append(tuple(sorted((p, q))))
    ctx = one_check(models, order=names)
    got = sorted(tuple(sorted(str(x) for x in r.players)) for r in ctx.collision_reports)
    c.compared()
    if not unspec:
        c.check(got == sorted(want), "crowd-pairs", lambda: f"pairs reported {got}, expected {sorted(want)}")
    involved = {p for g in got for p in g}
    for nm, m in models.items():
        if nm not in involved:
            untouched(c, m, init.get(nm, np.zeros(2)), 0.0, "bystander")
    c.check(np.array_equal(hub.vel, np.zeros(2)) and hub.omega == 0, "unmovable", f"the unmovable body moves: {hub.vel}")
    c.state((tuple(names), tuple(got)))
    c.outcome(tuple(got))


def pile(c, n, shapes, radii, turns, vels, orders, walls):
    """several bodies on top of each other that all keep pushing: every pair on its own, and each with the obstacles"""
    rad, turn = c.pick(radii, "radius"), c.pick(turns, "turn")
    vel = c.pick(vels, "velocities")
    models = {}
    for i in range(n):
        th = 2 * math.pi * i / n + 0.2
        x, y = rad * math.cos(th), rad * math.sin(th)
        v = np.array([-vel[i] * math.cos(th + turn), -vel[i] * math.sin(th + turn)])
        m = Body("PQRS"[i], SHAPES[c.pick(shapes, f"shape{i}")], x, y, 0.9 * i, v, 0.0, 10.0)
        m.set_velocity = lambda *args, **kw: None  # keeps pushing
        models["PQRS"[i]] = m
    wall = c.pick(walls, "wall")
    obstacles = [affinity.translate(SHAPES["hexagon"], *w) for w in wall]
    names = [list(models)[i] for i in c.pick(orders, "order")]
    want, open_ = [], set()
    for i, p in enumerate(names):
        a = models[p]
        others = [((p, q), models[q].get_footprint(), models[q].vel, models[q]._state) for q in names[i + 1:]]
        for who, shape, bv, st in others + [((p, "Env"), o, np.zeros(2), None) for o in obstacles]:
            e = contact(a.get_footprint(), shape)
            rel = None
            if e[0] == "contact":
                rel = closing(a, bv, 0.0, (st.x, st.y) if st else (0.0, 0.0), e[1], e[2])
            w = verdict(e, rel)
            if w is None:
                open_.add(tuple(sorted(who)))
            elif w:
                want.append(tuple(sorted(who)))
    ctx = one_check(models, order=names, obstacles=obstacles)
    got = sorted(tuple(sorted(map(str, r.players))) for r in ctx.collision_reports)
    # a contact that could not be resolved is reported about the player alone
    got = sorted(g if len(g) == 2 else (*g, "Env") if g[0] < "Env" else ("Env", *g) for g in got)
    c.compared()
    c.check([g for g in got if g not in open_] == sorted(w for w in want if w not in open_), "pile-pairs",
            lambda: f"pairs reported {got}, expected {sorted(want)} (not specified: {open_})")
    c.check(all(got.count(g) == 1 or g[0] == "Env" and got.count(g) <= len(obstacles) for g in got), "pile-twice", lambda: f"pairs reported {got}")
    c.state((rad, turn, vel, tuple(names), wall, tuple(got)))
    c.outcome(tuple(got))


def touching(c, n, kinds, swap):
    """a player next to obstacles it only touches, inside others, and around very small ones"""
    ks = []
    for i in range(n):
        k = c.pick([None] + [k for k in kinds if k not in ks], f"obstacle{i}")
        if k is None:
            break
        ks.append(k)
    beside = c.flag("touching_player")
    order = c.pick(swap, "order")
    a = Body("A", box(-1.0, -0.5, 1.0, 0.5), 8.0, -4.0, 0.0, (2.0, 0.25), 0.0, 12.0)
    a.set_velocity = lambda *args, **kw: None  # keeps pushing
    models = dict(A=a, B=Body("B", box(-1.0, -0.5, 1.0, 0.5), 8.0 if beside else 80.0, -5.0, 0.0, (0.0, 1.0), 0.0, 12.0))
    ctx = one_check(models, order=list(order), obstacles=[affinity.translate(NEXT[k][0], 8.0, -4.0) for k in ks])
    got = [(tuple(sorted(map(str, r.players))), None if r.impact_normal is None else tuple(float(v) for v in np.round(r.impact_normal, 6)))
           for r in ctx.collision_reports]
    want = [(("A", "Env"), NEXT[k][1]) for k in ks if NEXT[k][1]]
    c.compared()
    c.check(sorted(got) == sorted(want), "touching", lambda: f"reports {got}, expected {want} with {ks}")
    c.check(models["B"].has_collided is False and a.has_collided is bool(want), "touching-flags", lambda: f"{a.has_collided}, {models['B'].has_collided}")
    c.check(ctx.first_collision_ts == (DT if want else INF), "touching-first", lambda: f"first collision {ctx.first_collision_ts} with {ks}")
    c.state((tuple(ks), beside, order))
    c.outcome((len(want), beside))


# around a box of 2 m x 1 m: obstacle, direction in which it is hit (None: it is only touched or away)
NEXT = {
    "edge": (box(1.0, -2.0, 2.0, 2.0), None), "vertex": (Polygon([(1.0, 0.5), (2.0, 0.75), (1.25, 2.0)]), None), "on_top": (LineString([(-3.0, 0.5), (3.0, 0.5)]), None),
    "spike": (Polygon([(0.75, 0.0), (3.0, -0.25), (3.0, 0.25)]), (1.0, 0.0)), "roof": (Polygon([(0.0, 0.25), (-0.5, 3.0), (0.5, 3.0)]), (0.0, 1.0)),
    "away": (box(-4.0, -1.0, -3.0, 1.0), None), "wire": (LineString([(0.5, -0.25), (0.5, 0.25)]), (1.0, 0.0)), "pebble": (box(0.25, -0.125, 0.5, 0.125), (1.0, 0.0)),
    "passed": (LineString([(-0.5, -0.25), (-0.5, 0.25)]), None), "behind": (Polygon([(-0.75, 0.0), (-3.0, -0.25), (-3.0, 0.25)]), None),
}


def gone(c, steps):
    """players that are done are not part of the world any more; dynamic obstacles do not report wall hits"""
    k = c.pick(steps, "removal_step")
    who = c.pick(["A", "B", None], "who_leaves")
    kind = c.pick(["toy", "dynobs"], "kind_of_B")
    wall = c.flag("wall")
    a = Body("A", SHAPES["diamond"], 0, 0, 0, (1.0, 0.0), 0.0, 10.0)
    if kind == "toy":
        b = Body("B", SHAPES["diamond"], 1.4, 0.2, 0, (-1.0, 0.0), 0.0, 10.0)
    else:
        b = DynObstacleModel(DynObstacleState(x=1.4, y=0.2, psi=0, vx=-1.0, vy=0.0, dpsi=0.0), shape=SHAPES["diamond"],
                             og=ObstacleGeometry(m=10, Iz=10, e=0.3),
                             op=DynObstacleParameters(vx_limits=(-10, 10), acc_limits=(-5, 5)))
        b.update = lambda commands, dt: None  # stays in place
    obstacles = [affinity.translate(SHAPES["hexagon"], 1.4, 1.4)] if wall else []
    # both bodies keep pushing
    for m, v in ((a, (1.0, 0.0)), (b, (-1.0, 0.5))):
        m.get_velocity = lambda in_model_frame, v=v: (np.array(v), 0.0)
        m.set_velocity = lambda *args, **kw: None
    missions = {who: TGoal(t=DT * k)} if who else {"A": TGoal(t=D(1000))}
    missions.setdefault("B" if who == "A" else "A", TGoal(t=D(1000)))
    ctx = one_check(dict(A=a, B=b), obstacles=obstacles, missions=missions, steps=4)
    got = [(r.at_time, tuple(sorted(map(str, r.players)))) for r in ctx.collision_reports]
    want = []
    for i in range(1, 5):
        here = [p for p in "AB" if not (p == who and i >= k)]
        fb = b.get_footprint()
        for p in here:
            m = dict(A=a, B=b)[p]
            for o in obstacles:
                e = contact(m.get_footprint(), o)
                if e[0] == "contact" and np.array(m.get_velocity(False)[0]) @ e[1] >= 0 and not (
                        p == "B" and kind == "dynobs"):
                    want.append((DT * i, tuple(sorted((p, "Env")))))
        if len(here) == 2:
            want.append((DT * i, ("A", "B")))
    c.check(got == want, "gone", lambda: f"reports {got}, expected {want}")
    c.check(ctx.first_collision_ts == min([t for t, _ in want], default=INF), "gone-first",
            f"first collision {ctx.first_collision_ts}, reports {want}")
    c.compared()
    c.state((k, who, kind, wall))
    c.outcome(tuple(want))


PAIRS = [("diamond", "diamond"), ("box", "box"), ("box", "hexagon"), ("rod", "box"), ("triangle", "diamond"),
         ("circle", "rod"), ("box", "small"), ("lshape", "hexagon"), ("small", "box"), ("hexagon", "lshape")]
SLOW = "slow"
V8 = [(3 * math.cos(k * math.pi / 4 + 0.11), 3 * math.sin(k * math.pi / 4 + 0.11)) for k in range(8)]
HARNESSES = [
    dict(name="pair", body=pair,
         space="pair of shapes x bearing x distance x heading x order of the players x velocity x yaw rate",
         quick=dict(shapes=PAIRS, dists=[0.0, 0.6, 1.1, 1.7, 2.6], bearings=[0.0, 0.9, 2.2, -1.3], psis=[0.0, 0.8],
                    vels=[SLOW] + V8[::2], omegas=[0.0, 1.5], swap=["AB", "BA"]),
         thorough=dict(shapes=PAIRS + [(a, b) for a in SHAPES for b in SHAPES if (a, b) not in PAIRS],
                       dists=[0.0, 0.02, 0.3, 0.6, 0.9, 1.1, 1.4, 1.7, 2.1, 2.6, 3.4],
                       bearings=[k * math.pi / 6 + 0.05 for k in range(12)], psis=[0.0, 0.4, 0.8, 1.9, 3.0],
                       vels=[SLOW] + V8 + [(0.0, 0.0)], omegas=[-4.0, 0.0, 1.5], swap=["AB", "BA"]),
         ),
    dict(name="environment", body=environment,
         space="kind of obstacle (of 8 in the world) x shape x offset x heading x velocity x yaw rate",
         quick=dict(shapes=["diamond", "box", "lshape"], at=list(TYPES),
                    offs=[(-0.7, 0.1), (0.2, -0.4), (0.9, 0.3), (-1.9, 0.0), (0.03, 0.01), (3.0, 0.0)],
                    psis=[0.1, 1.2], vels=[(0.01, 0.003), (-0.01, 0.006)] + V8[::2], omegas=[0.0, 2.0]),
         thorough=dict(shapes=list(SHAPES), at=list(TYPES),
                       offs=[(0.45 * i - 2.0, 0.6 * j - 1.0) for i in range(11) for j in range(4)] + [(0.0, 0.0)],
                       psis=[0.1, 0.7, 1.2, 2.9], vels=V8, omegas=[0.0, 2.0])),
    dict(name="crowd", body=crowd, space="unmovable hub x 2-3 others: distance, shape, speed, order of the players",
         quick=dict(n=3, spots=[1.1, 1.5, 3.2], shapes=["diamond", "triangle"], vels=[2.0, -2.0],
                    orders=[(0, 1, 2, 3), (3, 1, 0, 2)]),
         thorough=dict(n=4, spots=[1.1, 1.45, 3.2], shapes=["diamond", "triangle"], vels=[2.0, -2.0],
                       orders=[(0, 1, 2, 3, 4), (4, 3, 2, 1, 0), (3, 1, 0, 4, 2)])),
    dict(name="pile", body=pile, space="2-4 pushing bodies: shapes x distance x direction x speeds x order x wall",
         quick=dict(n=3, shapes=["diamond", "box", "triangle"], radii=[0.45, 0.7, 1.3], turns=[0.1, 1.4], vels=[(1.0, 2.0, 3.0), (1.0, 0.2, -1.5)],
                    orders=[(0, 1, 2), (2, 0, 1)], walls=[(), ((1.1, 0.3), (-0.2, 1.2))]),
         thorough=dict(n=4, shapes=["diamond", "box", "triangle"], radii=[0.45, 0.7, 1.0, 1.3], turns=[0.1, 1.4, 2.9], vels=[(1.0, 2.0, 3.0, 1.5), (1.0, 0.2, -1.5, 2.2)],
                       orders=[(0, 1, 2, 3), (2, 0, 3, 1), (3, 2, 1, 0)], walls=[(), ((1.1, 0.3),), ((1.1, 0.3), (-0.2, 1.2))])),
    dict(name="touching", body=touching, space="all sequences of different obstacles that are touched, hit or left x player beside x order",
         quick=dict(n=3, kinds=list(NEXT), swap=["AB", "BA"]), thorough=dict(n=4, kinds=list(NEXT), swap=["AB", "BA"])),
    dict(name="gone", body=gone, space="who leaves when x kind of player x wall",
         quick=dict(steps=[1, 2, 3, 4]), thorough=dict(steps=[1, 2, 3, 4])),
]
