"""C31 - replicas of CommonRoad scenarios: every obstacle is where the scenario has it, and gets the lane that leads where it goes."""
import contextlib
import math
import os
import shutil
import tempfile
from decimal import Decimal as D

import numpy as np
from commonroad.common.file_writer import CommonRoadFileWriter
from commonroad.common.writer.file_writer_interface import OverwriteExistingFile
from commonroad.geometry.shape import Circle, Polygon as CrPolygon, Rectangle
from commonroad.planning.planning_problem import PlanningProblemSet
from commonroad.prediction.prediction import TrajectoryPrediction
from commonroad.scenario.lanelet import LaneletNetwork
from commonroad.scenario.obstacle import DynamicObstacle, ObstacleType, StaticObstacle
from commonroad.scenario.scenario import Location, Scenario, ScenarioID, Tag
from commonroad.scenario.state import InitialState, KSState
from commonroad.scenario.trajectory import Trajectory
from shapely.affinity import rotate, translate
from shapely.geometry import LineString, Point, Polygon

from dg_commons import PlayerName
from dg_commons.sim import SimParameters
from dg_commons.sim.agents.lane_follower import LFAgent
from dg_commons.sim.models.pedestrian import PedestrianModel
from dg_commons.sim.models.vehicle import VehicleModel
from dg_commons.sim.models.vehicle_utils import VehicleParameters
from dg_commons.sim.scenarios import dglane_from_position, load_commonroad_scenario
from dg_commons.sim.scenarios import NotSupportedConversion
from dg_commons.sim.scenarios.model_from_dyn_obstacle import infer_model_from_cr_dyn_obstacle
from dg_commons.sim.scenarios.factory import get_scenario_commonroad_replica

from .c25 import arc, strip
from .geomlib import differ
from .lanelib import wrap

ASSUMPTIONS = ["routes shorter than 150 m (the range in which CommonRoad merges lanelets)", "headings to be compared differ by more than 0.02 rad"]


def poly(y, *xs):
    return [(x, y) for x in xs]


def tilted(a, n=5):
    return [(s * math.cos(a), s * math.sin(a)) for s in np.linspace(-20, 20, n)]


NETS = {
    "chain": lambda: [strip(1, poly(0, 0, 5, 12, 20), 2, succ=[2]), strip(2, poly(0, 20, 28, 35), 2, pred=[1], succ=[3]), strip(3, poly(0, 35, 45, 60), 2, pred=[2]),
                      strip(7, poly(4, 0, 30, 60), 2)],
    "digits": lambda: [strip(3, poly(0, 0, 20), 2, succ=[21, 12]), strip(21, poly(0, 20, 28, 45), 2, pred=[3], succ=[4]), strip(12, [(20, 0), (25, 1), (35, 6), (40, 16)], 2, pred=[3], succ=[1]),
                       strip(4, poly(0, 45, 60), 2, pred=[21]), strip(1, [(40, 16), (40, 30)], 2, pred=[12]), strip(32, poly(-20, 60, 0), 2, succ=[]), strip(2, poly(-20, 0, -20), 2)],
    "slanted": lambda: [strip(5, tilted(math.pi), 2), strip(6, tilted(2.75), 2), strip(8, tilted(-2.7), 2)],
    "slanted2": lambda: [strip(5, tilted(0.0), 2), strip(6, tilted(0.4), 2)],
}
# (x, y) of the first and the last state, heading of the first, bend of the heading on the way
PATHS = {
    "along": (3, 0.3, 40, 0.2, 0.0), "short": (22, -0.3, 30, 0.0, 0.05), "change": (5, 0.2, 30, 4.1, -0.1), "off": (-30, -40, -20, -45, 0.0), "into": (-12, -8, 10, 0, 0.3), "left": (4, 0.1, 40, 22, 0.02),
    "still": (12, 1.0, 12.05, 1.1, 0.0), "almost": (12, 1.0, 12.3, 1.0, 0.0), "back": (55, -20.2, 3, -20.0, 0.0), "pi-": (1, 0.1, -1.0, 0.0, -0.3), "pi+": (1, -0.1, -1.0, 0.0, 0.4), "away": (1, 0.1, 50, 40, 0.0),
    "slow": (2, 0.2, 2.25, 0.2, 0.1), "diagonal": (12, 1.0, 12.16, 1.16, 0.0), "swing": (1, 0.1, -1.0, 0.0, 0.9),
}
HEAD = {"left": 0.0, "pi-": 3.1, "pi+": -3.1, "back": math.pi, "along": 0.0, "still": 2.0, "short": 0.01, "swing": 2.9}
TYPES = {"car": ObstacleType.CAR, "truck": ObstacleType.TRUCK, "bus": ObstacleType.BUS, "bicycle": ObstacleType.BICYCLE, "pedestrian": ObstacleType.PEDESTRIAN, "motorcycle": ObstacleType.MOTORCYCLE,
         "unknown": ObstacleType.UNKNOWN}
SIZE = {"car": (4.5, 1.9), "truck": (8.0, 2.4), "bus": (10.0, 2.5), "bicycle": (1.8, 0.6), "pedestrian": (0.6, 0.6), "motorcycle": (2.0, 0.8), "unknown": (1.0, 1.0)}
STATICS = {"parked": (Rectangle(4.0, 1.8), 7.0, 3.0, 1.1), "round": (Circle(0.7), -3.0, 2.0, 0.0), "poly": (CrPolygon(np.array([[1.0, -0.5], [0.0, 1.0], [-1.0, -0.5]])), 30.0, -8.0, -2.2)}


def states(path, vel, n=4):
    x0, y0, x1, y1, bend = PATHS[path]
    h = HEAD.get(path, math.atan2(y1 - y0, x1 - x0))
    out = []
    for k in range(n + 1):
        f = k / n
        out.append((round(x0 + f * (x1 - x0), 4), round(y0 + f * (y1 - y0), 4), round(wrap(h + bend * f), 4), vel))
    return out


def dyn(i, typ, path, vel, size=None):
    st = states(path, vel)
    shape = Rectangle(*(size or SIZE[typ]))
    x, y, h, v = st[0]
    tr = Trajectory(1, [KSState(time_step=k, position=np.array([x, y]), orientation=h, velocity=v, steering_angle=0.0) for k, (x, y, h, v) in enumerate(st[1:], 1)])
    return DynamicObstacle(i, TYPES[typ], shape, InitialState(time_step=0, position=np.array([x, y]), orientation=h, velocity=v, acceleration=0.0, yaw_rate=0.0, slip_angle=0.0),
                           TrajectoryPrediction(tr, shape))


def static(i, name):
    shape, x, y, h = STATICS[name]
    return StaticObstacle(i, ObstacleType.PARKED_VEHICLE, shape, InitialState(time_step=0, position=np.array([x, y]), orientation=h, velocity=0.0, acceleration=0.0, yaw_rate=0.0, slip_angle=0.0))


@contextlib.contextmanager
def on_disk(net, dyns, stats, name="ZAM_Test-1_1_T-1", nested=False):
    sc = Scenario(0.1, ScenarioID.from_benchmark_id(name, "2020a"), author="a", affiliation="b", source="c", tags={Tag.URBAN}, location=Location())
    sc.add_objects(LaneletNetwork.create_from_lanelet_list(net, cleanup_ids=False))
    for o in dyns + stats:
        sc.add_objects(o)
    d = tempfile.mkdtemp(prefix="mc31_")
    try:
        sub = os.path.join(d, "some", "where") if nested else d
        os.makedirs(sub, exist_ok=True)
        with contextlib.redirect_stdout(None):
            CommonRoadFileWriter(sc, PlanningProblemSet(), decimal_precision=8).write_to_file(os.path.join(sub, name + ".xml"), OverwriteExistingFile.ALWAYS)
        yield d
    finally:
        shutil.rmtree(d)


def placed(shape, x, y, h):
    return translate(rotate(shape.shapely_object, h, origin=(0, 0), use_radians=True), x, y)


def routes(lan, start, final):
    """maximal paths of lanelets from a start that pass a final one"""
    out, todo = [], [[s] for s in start]
    while todo:
        p = todo.pop()
        nxt = [s for s in lan[p[-1]].successor if s not in p]
        if not nxt:
            out.append(p)
        todo += [p + [s] for s in nxt]
    return [p for p in out if set(p) & set(final)]


def contains(l, x, y):
    return Polygon(np.concatenate([l.right_vertices, l.left_vertices[::-1]])).contains(Point(x, y))


def once(pts):
    pts = [tuple(p) for p in pts]
    return np.array([p for k, p in enumerate(pts) if k == 0 or math.dist(p, pts[k - 1]) > 1e-6])


def centre(lan, route):
    return once(p for i in route for p in lan[i].center_vertices)


def heading_at(line, x, y):
    l = LineString(line)
    s = l.project(Point(x, y))
    a, b = l.interpolate(max(s - 1e-3, 0)), l.interpolate(min(s + 1e-3, l.length))
    return math.atan2(b.y - a.y, b.x - a.x)


def lane_ok(c, lane, lan, st, what):
    got = once(p.q.p for p in lane.control_points)
    (x0, y0, h0, _), (x1, y1, _, _) = st[0], st[-1]
    rs = routes(lan, [i for i in lan if contains(lan[i], x0, y0)], [i for i in lan if contains(lan[i], x1, y1)])
    if not rs:
        want = np.array([s[:2] for s in st[1:]])
        c.check(got.shape == want.shape and np.allclose(got, want, atol=1e-6), "trajectory-lane", lambda: f"{got.tolist()}: {what()}")
        c.check(all(abs(wrap(p.q.theta - s[2])) < 1e-6 and abs(p.r - 1.5) < 1e-9 for p, s in zip(lane.control_points, st[1:])), "trajectory-lane", what)
        return "trajectory"
    off = {tuple(r): abs(wrap(h0 - heading_at(centre(lan, r), x0, y0))) for r in rs}
    ok = [r for r, o in off.items() if o < min(off.values()) + 0.02]
    c.check(any(got.shape == centre(lan, r).shape and np.allclose(got, centre(lan, r), atol=1e-6) for r in ok), "lane", lambda: f"lane through {got.tolist()}, expected one of the routes {ok} of {off}: {what()}")
    return len(ok)


def model_ok(c, o, typ, st, model, what, odd=False):
    """o: obstacle of the scenario; st: its states"""
    x, y, h, v = st[0]
    s = model.get_state()
    c.check(isinstance(model, PedestrianModel if typ == "pedestrian" else VehicleModel), "model-type", what)
    c.check(max(abs(s.x - x), abs(s.y - y), abs(wrap(s.psi - h)), abs(s.vx - v)) < 1e-6, "initial-state", lambda: f"{s}: {what()}")
    if typ == "pedestrian":
        c.check(abs(s.vy) + abs(s.dpsi) < 1e-9, "initial-state", what)
    else:
        bend = wrap(st[1][2] - h)
        c.check(abs(s.delta) < math.pi / 2 and (abs(bend) < 1e-6 or bend * s.delta > 0), "initial-steering", lambda: f"{s.delta} for a turn of {bend}: {what()}")
        shape = placed(o.obstacle_shape, x, y, h)
        fp = model.get_footprint()
        c.check(odd or fp.hausdorff_distance(shape) < 0.35 + 0.12 * max(o.obstacle_shape.length, o.obstacle_shape.width), "footprint", lambda: f"{fp} for {shape}: {what()}")
        c.check((model.model_type == "bicycle") == (typ == "bicycle"), "model-type", what)
        c.check(model.vp == (VehicleParameters.default_bicycle() if typ == "bicycle" else VehicleParameters.default_car()), "parameters", lambda: f"{model.vp}: {what()}")


def player_ok(c, o, typ, st, model, agent, lan, what):
    model_ok(c, o, typ, st, model, what)
    c.check(isinstance(agent, LFAgent), "agent", what)
    return lane_ok(c, agent.ref_lane, lan, st, what)


def replica(c, nets, types, paths, n_dyn, statics, egos, nested, vels):
    net = c.pick(nets, "network")
    dyns, sts = [], []
    for i in range(c.pick(n_dyn, "n")):
        typ, path, vel = c.pick(types, f"type{i}"), c.pick(paths, f"path{i}"), c.pick(vels, f"velocity{i}")
        sts.append((typ, states(path, vel), path))
        dyns.append(dyn(100 + i, typ, path, vel))
    stat = c.pick(statics, "static obstacles")
    ego = c.pick(egos, "ego")
    prm = SimParameters(max_sim_time=D("3.5"))
    what = lambda: f"{net}, {[(t, p) for t, _, p in sts]}, {stat}, ego {ego}"
    with on_disk(NETS[net](), dyns, [static(200 + i, s) for i, s in enumerate(stat)], nested=c.pick(nested, "nested")) as d:
        ctx = get_scenario_commonroad_replica("ZAM_Test-1_1_T-1" + c.pick(["", ".xml"], "suffix"), scenarios_dir=d, sim_param=prm, ego_player=PlayerName(ego) if ego else None, seed=5, description="abc")
    lan = {l.lanelet_id: l for l in NETS[net]()}
    judge(c, ctx, dyns, sts, [(STATICS[s][0], *STATICS[s][1:]) for s in stat], lan, ego, what)
    c.check(ctx.param is prm and ctx.seed == 5 and ctx.description == "abc", "parameters", what)
    c.state((net, tuple((t, p) for t, _, p in sts), tuple(stat), ego))
    c.outcome((len(ctx.players), len(ctx.dg_scenario.static_obstacles)))


def judge(c, ctx, dyns, sts, statics, lan, ego, what):
    want, fixed = {}, []
    for i, (o, (typ, st, _)) in enumerate(zip(dyns, sts)):
        if math.dist(st[0][:2], st[-1][:2]) < 0.2:
            fixed.append((placed(o.obstacle_shape, *st[0][:3]), o.obstacle_type))
        elif typ not in ("motorcycle", "unknown", "pedestrian"):
            want["Ego" if f"P{i}" == ego else f"P{i}"] = (o, typ, st)
    c.step()
    c.compared(2 + 5 * len(want) + len(fixed))
    c.check(sorted(ctx.players) == sorted(ctx.models) == sorted(want), "players", lambda: f"{sorted(ctx.players)}, expected {sorted(want)}: {what()}")
    for p, (o, typ, st) in want.items():
        player_ok(c, o, typ, st, ctx.models[p], ctx.players[p], lan, lambda: f"{p}; {what()}")
    fixed += [(placed(s, x, y, h), ObstacleType.PARKED_VEHICLE) for s, x, y, h in statics]
    got = list(ctx.dg_scenario.static_obstacles)
    c.check(len(got) == len(fixed), "static", lambda: f"{len(got)} static obstacles, expected {len(fixed)}: {what()}")
    for s, t in fixed:
        c.check(any(differ(g.shape, s) < 1e-3 * s.area + 1e-6 and g.obstacle_type == t for g in got), "static", lambda: f"no static obstacle at {s}: {[g.shape.wkt for g in got]}; {what()}")
    c.check(len(set(map(id, ctx.models.values()))) == len(ctx.models) and len(set(map(id, ctx.players.values()))) == len(ctx.players), "shared", what)
    c.check(not ctx.log and not ctx.missions and ctx.dg_scenario.lanelet_network is not None and {l.lanelet_id for l in ctx.dg_scenario.lanelet_network.lanelets} == set(lan), "context", what)


def position(c, nets, pts, ini, succ):
    """the lane at a position"""
    net = c.pick(nets, "network")
    lan = {l.lanelet_id: l for l in NETS[net]()}
    nw = LaneletNetwork.create_from_lanelet_list(list(lan.values()), cleanup_ids=False)
    p = c.pick(pts, "position")
    on = [i for i in lan if contains(lan[i], *p)]
    i, j = c.pick(ini, "init"), c.pick(succ, "succ")
    what = lambda: f"{net}, {p}, lanelet {i}, route {j}"
    try:
        lane = dglane_from_position(np.array(p), nw, init_lane_selection=i, succ_lane_selection=j) if (i, j) != (0, 0) or c.flag("explicit") else dglane_from_position(np.array(p), nw)
    except AssertionError:
        c.check(not on, "lane-missing", what)
        c.outcome("none")
        return
    except IndexError:
        c.check(bool(on) and (i >= len(on) or j >= max(len(routes(lan, [k], [k])) for k in on)), "selection", what)
        c.outcome("index")
        return
    c.step()
    c.compared()
    got = once(q.q.p for q in lane.control_points)
    rs = [r for k in on for r in routes(lan, [k], [k])]
    c.check(any(got.shape == centre(lan, r).shape and np.allclose(got, centre(lan, r)) for r in rs), "lane-at", lambda: f"{got.tolist()}, expected one of {rs}: {what()}")
    c.state((net, p, i, j))
    c.outcome(len(got))


def model(c, types, paths, vels, sizes):
    """the model inferred for an obstacle, by itself"""
    typ, path, vel, size = c.pick(types, "type"), c.pick(paths, "path"), c.pick(vels, "velocity"), c.pick(sizes, "size")
    o, st = dyn(100, typ, path, vel, size), states(path, vel)
    what = lambda: f"{typ}, {path}, {vel}, {size}"
    c.step()
    c.compared()
    c.state((typ, path, vel, size))
    try:
        m = infer_model_from_cr_dyn_obstacle(o, "royalblue")
    except NotSupportedConversion:
        c.check(typ in ("motorcycle", "unknown"), "model-missing", what)
        return c.outcome("none")
    model_ok(c, o, typ, st, m, what, odd=size is not None)
    c.outcome((typ, type(m).__name__))


def loading(c):
    """by name, with or without suffix, anywhere below the directory; missing ones are reported"""
    nested, suffix, missing = c.flag("nested"), c.flag("suffix"), c.pick(["no", "other", "prefix", "ending"], "missing")
    with on_disk(NETS["chain"](), [dyn(100, "car", "along", 3.0)], [], nested=nested) as d:
        name = {"no": "ZAM_Test-1_1_T-1", "other": "ZAM_Rest-1_1_T-1", "prefix": "ZAM_Test-1_1_T", "ending": "Test-1_1_T-1"}[missing] + (".xml" if suffix else "")
        c.step()
        c.compared()
        try:
            sc, pps = load_commonroad_scenario(name, d)
            found = True
        except FileNotFoundError:
            found = False
        c.check(found == (missing == "no"), "loading", f"{name}: found {found}")
        if found:
            c.check(str(sc.scenario_id) == "ZAM_Test-1_1_T-1" and len(sc.dynamic_obstacles) == 1 and len(sc.lanelet_network.lanelets) == 4, "content", str(sc.scenario_id))
    c.state((nested, suffix, missing))
    c.outcome(found)


def shipped(c, names):
    """the scenarios that come with the repository"""
    name = c.pick(names, "scenario")
    sc, _ = load_commonroad_scenario(name)
    ego = c.pick([None, "P0", "P2"], "ego")
    ctx = get_scenario_commonroad_replica(name, ego_player=PlayerName(ego) if ego else None)
    lan = {l.lanelet_id: l for l in sc.lanelet_network.lanelets}
    n = 0
    for i, o in enumerate(sc.dynamic_obstacles):
        tr = [o.initial_state] + list(o.prediction.trajectory.state_list)
        st = [(*s.position, s.orientation, s.velocity) for s in tr]
        p = "Ego" if f"P{i}" == ego else f"P{i}"
        parked = math.dist(st[0][:2], st[-1][:2]) < 0.2
        c.check((p in ctx.players) == (not parked) == (p in ctx.models), "players", lambda: f"{p} in {name}")
        c.step()
        c.compared(4)
        if parked:
            sh = placed(o.obstacle_shape, *st[0][:3])
            c.check(any(differ(g.shape, sh) < 1e-3 * sh.area for g in ctx.dg_scenario.static_obstacles), "static", lambda: f"obstacle {i} of {name}")
            n += 1
            continue
        what = lambda: f"{p} of {name}"
        s = ctx.models[p].get_state()
        c.check(max(abs(s.x - st[0][0]), abs(s.y - st[0][1]), abs(wrap(s.psi - st[0][2])), abs(s.vx - st[0][3])) < 1e-9 and abs(s.delta) < 1.0, "initial-state", lambda: f"{s}: {what()}")
        lane = ctx.players[p].ref_lane
        line = LineString([q.q.p for q in lane.control_points])
        rs = max(q.r for q in lane.control_points)
        c.check(line.distance(Point(st[0][:2])) < rs + 2.0 and line.distance(Point(st[-1][:2])) < rs + 2.0, "lane", lambda: f"the lane leads elsewhere: {what()}")
        c.check(line.project(Point(st[-1][:2])) > line.project(Point(st[0][:2])) - 1e-6, "lane", lambda: f"the lane leads the other way: {what()}")
    c.check(len(ctx.dg_scenario.static_obstacles) == n + len(sc.static_obstacles), "static", name)
    c.state((name, ego))
    c.outcome(len(ctx.players))


ALLP = list(PATHS)
ST = [(), ("parked",), ("parked", "round", "poly")]
HARNESSES = [
    dict(name="one", body=replica, space="network x type x trajectory x velocity x static obstacles x ego",
         quick=dict(nets=list(NETS), types=list(TYPES), paths=ALLP, n_dyn=[1], statics=ST[:2], egos=[None, "P0"], nested=[False], vels=[5.0]),
         thorough=dict(nets=list(NETS), types=list(TYPES), paths=ALLP, n_dyn=[1], statics=ST, egos=[None, "P0", "P1"], nested=[False, True], vels=[0.0, 5.0])),
    dict(name="several", body=replica, space="network x all pairs of obstacles x static obstacles x ego",
         quick=dict(nets=["chain"], types=["car", "pedestrian", "unknown"], paths=["along", "still", "change"], n_dyn=[0, 2], statics=ST[1:], egos=[None, "P1"], nested=[True], vels=[5.0]),
         thorough=dict(nets=["chain", "digits"], types=["car", "pedestrian", "bicycle", "unknown"], paths=["along", "still", "change", "left"], n_dyn=[0, 2, 3], statics=ST[2:], egos=[None, "P1"], nested=[True], vels=[5.0])),
    dict(name="position", body=position, space="network x position x selection",
         args=dict(nets=list(NETS), pts=[(3.0, 0.5), (25.0, 0.5), (35.0, 5.5), (0.1, 0.0), (15.0, 4.5), (500.0, 0.0), (30.0, -20.0)], ini=[0, 1, 2], succ=[0, 1])),
    dict(name="model", body=model, space="type x trajectory x velocity", args=dict(types=list(TYPES), paths=ALLP, vels=[0.0, 0.7, 5.0], sizes=[None, (0.8, 1.1), (2.0, 0.5), (3.0, 3.0), (14.0, 2.6)])),
    dict(name="loading", body=loading, space="directory x name"),
    dict(name="shipped", body=shipped, space="scenario of the repository x ego", args=dict(names=["USA_Lanker-1_1_T-1", "ESP_Barcelona-20_23_T-1", "USA_Phoenix-51_10_T-1"])),
]
