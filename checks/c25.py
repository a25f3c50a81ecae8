"""C25 - road boundaries: the perimeter of the road without its gates; obstacles of a scenario can be found where they are."""
import math

import numpy as np
from commonroad.scenario.lanelet import Lanelet, LaneletNetwork
from commonroad.scenario.scenario import Scenario, ScenarioID
from shapely.geometry import LinearRing, LineString, MultiLineString, Point, Polygon, box
from shapely.ops import unary_union

from dg_commons.maps.road_bounds import build_road_boundary_obstacle
from dg_commons.sim.models.obstacles import ObstacleGeometry, StaticObstacle
from dg_commons.sim.scenarios import load_commonroad_scenario
from dg_commons.sim.scenarios.structures import DgScenario

from .lanelib import paths

ASSUMPTIONS = ["buffers larger than zero"]


def strip(i, pts, w, pred=(), succ=()):
    """lanelet around a poly-line"""
    pts = np.array(pts, float)
    t = np.gradient(pts, axis=0)
    t /= np.linalg.norm(t, axis=1)[:, None]
    n = np.stack([-t[:, 1], t[:, 0]], axis=1)
    return Lanelet(pts + n * w, pts, pts - n * w, i, predecessor=list(pred), successor=list(succ))


def arc(cx, cy, r, a0, a1, n=9):
    return [(cx + r * math.cos(a), cy + r * math.sin(a)) for a in np.linspace(a0, a1, n)]


NETS = {
    "single": lambda: [strip(1, [(0, 0), (10, 0), (20, 0)], 2)],
    "apart": lambda: [strip(1, [(0, 0), (10, 0), (20, 0)], 2), strip(2, [(0, 10), (20, 10)], 1.5)],
    "side_by_side": lambda: [strip(1, [(0, 0), (20, 0)], 2), strip(2, [(20, 4), (0, 4)], 2)],
    "chain": lambda: [strip(1, [(0, 0), (10, 0)], 2, succ=[2]), strip(2, [(10, 0), (25, 0)], 2, pred=[1], succ=[3]), strip(3, [(25, 0), (30, 0)], 2, pred=[2])],
    "cross": lambda: [strip(1, [(-15, 0), (15, 0)], 2), strip(2, [(0, -12), (0, 14)], 1.5)],
    "fork": lambda: [strip(1, [(0, 0), (10, 0)], 2, succ=[2, 3]), strip(2, [(10, 0), (25, 0)], 2, pred=[1]), strip(3, [(10, 0), (14, 3), (14.5, 14)], 2, pred=[1])],
    "ring": lambda: [strip(1, arc(0, 0, 8, 0, math.pi), 1.5, pred=[2], succ=[2]), strip(2, arc(0, 0, 8, math.pi, 2 * math.pi), 1.5, pred=[1], succ=[1])],
    "ring_exit": lambda: [strip(1, arc(0, 0, 8, 0, math.pi), 1.5, pred=[2], succ=[2]), strip(2, arc(0, 0, 8, math.pi, 2 * math.pi), 1.5, pred=[1], succ=[1]),
                          strip(3, [(7, 0), (20, 0)], 1.5, pred=[1])],
    "ring_spur": lambda: [strip(1, arc(0, 0, 12, 0, math.pi, 15), 1.5, pred=[2], succ=[2]), strip(2, arc(0, 0, 12, math.pi, 2 * math.pi, 15), 1.5, pred=[1], succ=[1]),
                          strip(3, [(-11, 0), (-2, 0.5)], 1.0, pred=[1])],
    "dead_ends": lambda: [strip(1, [(0, 0), (10, 0)], 2, succ=[2]), strip(2, [(10, 0), (20, 0)], 2, pred=[1], succ=[9]), strip(3, [(0, 4), (20, 4)], 2, pred=[8])],
    "bend": lambda: [strip(1, [p for p in arc(0, 0, 20, 0.2, 1.9, 14)], 2)],
    "three": lambda: [strip(1, [(0, 0), (20, 0)], 2), strip(2, [(0, 12), (20, 12)], 2), strip(3, [(40, -5), (40, 20)], 1)],
    "tiny": lambda: [strip(1, [(0, 0), (0.5, 0)], 0.2)],
}


def scenario(name):
    if name in NETS:
        sc = Scenario(0.1, ScenarioID())
        sc.add_objects(LaneletNetwork.create_from_lanelet_list(NETS[name](), cleanup_ids=False))
        return sc
    sc, _ = load_commonroad_scenario(name)
    return sc


def expected(sc, buffer):
    """road surface, open ends"""
    lan = sc.lanelet_network.lanelets
    road = unary_union([Polygon(np.concatenate([l.right_vertices, l.left_vertices[::-1]])).buffer(buffer) for l in lan])
    ends = []
    for l in lan:
        if not l.predecessor:
            ends.append(LineString([l.left_vertices[0], l.right_vertices[0]]))
        if not l.successor:
            ends.append(LineString([l.left_vertices[-1], l.right_vertices[-1]]))
    return road, ends


def bounds(c, nets, buffers):
    name = c.pick(nets, "network")
    sc = scenario(name)
    b = c.pick(buffers, "buffer")
    lines, gates = build_road_boundary_obstacle(sc, buffer=b) if b is not None else build_road_boundary_obstacle(sc)
    b = 0.1 if b is None else b
    road, ends = expected(sc, b)
    polys = list(getattr(road, "geoms", [road]))
    ext = unary_union([p.exterior for p in polys])
    inner = [i for p in polys for i in p.interiors]
    c.step()
    c.compared(6)
    what = lambda: f"{name}, buffer {b}"
    for l in lines:
        c.check(isinstance(l, (LineString, LinearRing)) and not l.is_empty, "type", lambda: f"{type(l)} in {what()}")
    got = unary_union(lines) if lines else MultiLineString([])
    tol = 1e-6
    c.check(got.difference(road.boundary.buffer(tol)).length < 1e-4, "off-perimeter", lambda: f"a boundary is not on the perimeter: {what()}")
    arms = unary_union([e.buffer(2 * b) for e in ends]) if ends else Polygon()
    must = ext.difference(arms.buffer(1e-3))
    c.check(must.difference(got.buffer(tol)).length < 1e-4, "hole", lambda: f"{must.difference(got.buffer(tol))} is not a boundary: {what()}")
    core = unary_union([e.buffer(2 * b - min(1e-3, b / 10)) for e in ends]) if ends else Polygon()
    # boundaries around islands stay closed
    isl = unary_union([LineString(i.coords) for i in inner]) if inner else MultiLineString([])
    shut = got.difference(isl.buffer(tol)).intersection(core)
    c.check(shut.length < 1e-4, "closed-gate", lambda: f"a gate is closed by {shut}: {what()}")
    c.check(isl.difference(got.buffer(tol)).length < 1e-4, "island", lambda: f"an island has no boundary: {what()}")
    c.check(abs(sum(l.length for l in lines) - got.length) < 1e-3 * (1 + got.length), "duplicates", lambda: f"boundaries overlap: {what()}")
    c.check(len(gates) == len(ends), "gates", lambda: f"{len(gates)} gates, expected {len(ends)}: {what()}")
    for e in ends:
        c.check(any(g.buffer(1e-9).contains(e) for g in gates), "gates", lambda: f"no gate at {e}: {what()}")
    c.state((name, b, len(lines)))
    c.outcome((len(lines), len(gates)))


OBST = {"box": lambda: box(1, 1, 3, 2), "far": lambda: Point(60, 60).buffer(2), "line": lambda: LineString([(0, -6), (25, -5)]),
        "ring": lambda: LinearRing([(-30, -30), (70, -30), (70, 70), (-30, 70)]), "over": lambda: box(2, -1, 12, 1.5)}
PROBES = [box(0, 0, 1.5, 1.5), box(59, 59, 61, 61), box(-31, 0, -29, 1), Point(10, 0).buffer(0.5), Point(10, 2.05).buffer(0.5), box(-50, -50, 90, 90),
          Point(200, 200).buffer(1), LineString([(10, -20), (10, 20)]), box(19.5, -0.5, 21.5, 0.5)]


def holder(c, nets, obsts, n_obst, kinds):
    """the scenario the simulator uses"""
    name = c.pick(nets, "network")
    sc = scenario(name) if name else None
    given = [StaticObstacle(OBST[c.pick(obsts, f"obstacle{i}")](), geometry=ObstacleGeometry.default_static(e=0.1 * i)) for i in range(c.pick(n_obst, "n"))]
    kind = c.pick(kinds, "container")
    arg = dict(list=list(given), tuple=tuple(given), gen=(o for o in given), none=None)[kind]
    if kind == "none":
        given = []
    roads = c.flag("boundaries")
    dg = DgScenario(scenario=sc, static_obstacles=arg, use_road_boundaries=roads, road_boundaries_buffer=0.2)
    obs = dg.static_obstacles
    c.step()
    c.compared(3 + len(PROBES))
    what = lambda: f"{name}, {kind}, boundaries {roads}: {[o.shape.geom_type for o in obs]}"
    if kind == "list":
        c.check(arg == given, "mutates", what)
    c.check(len(obs) >= len(given) and all(a is b for a, b in zip(obs, given)), "given", what)
    extra = [o.shape for o in obs[len(given):]]
    if roads and sc is not None:
        want, _ = build_road_boundary_obstacle(sc, buffer=0.2)
        c.check(len(extra) == len(want) and all(a.equals(b) for a, b in zip(extra, want)), "boundaries", what)
        c.check(all(isinstance(o, StaticObstacle) and math.isinf(o.geometry.m) for o in obs), "boundary-type", what)
    else:
        c.check(not extra, "boundaries", what)
    for q in PROBES:
        hit = {int(i) for i in dg.strtree_obstacles.query(q, predicate="intersects")}
        c.check(hit == {i for i, o in enumerate(obs) if o.shape.intersects(q)}, "index", lambda: f"{q} hits {hit}; {what()}")
    c.check((dg.lanelet_network is sc.lanelet_network) if sc is not None else dg.lanelet_network is None, "network", what)
    c.state((name, kind, roads, len(obs)))
    c.outcome(len(obs))


REAL = ["USA_Lanker-1_1_T-1", "ESP_Barcelona-20_23_T-1", "USA_Phoenix-51_10_T-1"]
HARNESSES = [
    dict(name="bounds", body=bounds, space="lanelet network x buffer", quick=dict(nets=list(NETS) + REAL, buffers=[None, 0.01, 0.1, 0.35]),
         thorough=dict(nets=list(NETS) + REAL, buffers=[None, 0.001, 0.01, 0.05, 0.1, 0.2, 0.35, 0.6])),
    dict(name="holder", body=holder, space="network x obstacles x container x with or without boundaries",
         quick=dict(nets=[None, "single", "three", "ring_exit"], obsts=list(OBST), n_obst=[0, 1, 2], kinds=["list", "tuple", "gen", "none"]),
         thorough=dict(nets=[None] + list(NETS), obsts=list(OBST), n_obst=[0, 1, 2, 3], kinds=["list", "tuple", "gen", "none"])),
]
