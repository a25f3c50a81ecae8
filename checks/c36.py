"""C36: who was in an accident, who is at fault, and what the plots of logs and accidents show."""
from __future__ import annotations

import itertools
import math
import warnings
from dataclasses import fields
from decimal import Decimal as D

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np
from commonroad.scenario.lanelet import LaneletNetwork
from commonroad.scenario.scenario import Scenario
from geometry import SE2_from_xytheta
from shapely.geometry import Point, Polygon

from dg_commons import PlayerName
from dg_commons.seq.sequence import DgSampledSequence
from dg_commons.sim.collision import resolve_collision
from dg_commons.sim.collision_structures import CollisionReport, CollisionReportPlayer
from dg_commons.sim.collision_utils import check_who_is_at_fault
from dg_commons.sim.collision_visualisation import plot_collision
from dg_commons.sim.log_visualisation import plot_player_log, plot_players_logs
from dg_commons.sim.models.vehicle import VehicleCommands, VehicleModel, VehicleState
from dg_commons.sim.scenarios.structures import DgScenario
from dg_commons.sim.simulator import SimContext
from dg_commons.sim.simulator_structures import PlayerLog, SimLog, SimParameters
from dg_commons.sim.utils import who_collided

from .c25 import strip
from .c32 import AnyAgent
from .geomlib import differ
from .modellib import KINDS

warnings.filterwarnings("ignore")
ASSUMPTIONS = ["poses closer than 0.05 m to the border of a lane or 0.05 rad to being across it are not judged", "lanes are straight"]


def wrap(a):
    return (a + math.pi) % (2 * math.pi) - math.pi


# straight lanes: (x, y, heading, length, half width)
LANES = {"east": (0.0, 0.0, 0.0, 40.0, 2.0), "west": (40.0, 4.0, math.pi, 40.0, 2.0), "over": (0.0, 1.0, 0.0, 40.0, 3.0), "against": (40.0, 0.0, math.pi, 40.0, 2.0),
         "north": (20.0, -20.0, math.pi / 2, 40.0, 2.0), "short": (0.0, 0.0, 0.0, 12.0, 2.0)}
WORLDS = [(), ("east",), ("east", "west"), ("east", "over"), ("east", "against"), ("east", "north"), ("short", "west")]


def network(names):
    ls = []
    for i, n in enumerate(names):
        x, y, h, l, r = LANES[n]
        ls.append(strip(10 + i, [(x + s * math.cos(h), y + s * math.sin(h)) for s in np.linspace(0, l, 5)], r))
    return LaneletNetwork.create_from_lanelet_list(ls, cleanup_ids=False)


def on(lane, p, margin=0.0):
    """along, lateral of a point in a lane"""
    x, y, h, l, r = LANES[lane]
    dx, dy = p[0] - x, p[1] - y
    return dx * math.cos(h) + dy * math.sin(h), -dx * math.sin(h) + dy * math.cos(h)


def at_fault(names, impact, pose):
    """True, False or None if too close to call"""
    here = []
    for n in names:
        s, d = on(n, impact)
        l, r = LANES[n][3:]
        m = min(s, l - s, r - abs(d))
        if abs(m) < 0.05:
            return None
        if m > 0:
            here.append(n)
    legal = []
    for n in here:
        s, d = on(n, pose[:2])
        l, r = LANES[n][3:]
        m = min(s, l - s, r - abs(d))
        a = math.pi / 2 - abs(wrap(pose[2] - LANES[n][2]))
        if abs(m) < 0.05 or abs(a) < 0.05:
            return None
        legal.append(m > 0 and a > 0)
    return not any(legal)


def fault(c, worlds, xs, ys, hs, impacts, n):
    names = c.pick(worlds, "lanes")
    imp = c.pick(impacts, "impact")
    net = network(names)
    poses = {PlayerName(f"P{i}"): (c.pick(xs, f"x{i}"), c.pick(ys, f"y{i}"), c.pick(hs, f"psi{i}")) for i in range(n)}
    got = check_who_is_at_fault({p: SE2_from_xytheta(q) for p, q in poses.items()}, impact_point=Point(*imp), lanelet_network=net)
    c.check(set(got) == set(poses), "fault", lambda: f"{got}")
    want = {}
    for p, q in poses.items():
        want[p] = at_fault(names, imp, q)
        if want[p] is None:
            c.count("too close to call")
            continue
        c.compared()
        c.check(bool(got[p]) == want[p], "fault", lambda: f"{p} at {q} is {'' if got[p] else 'not '}at fault for an impact at {imp} on {names}")
    c.step()
    c.state((names, imp, tuple(poses.values())))
    c.outcome(tuple(want.values()))


def accident(c, worlds, froms, sides):
    """the reports of real accidents of two cars"""
    names = c.pick(worlds, "lanes")
    x, y, h = c.pick(froms, "pose")
    kind, dist, dh = c.pick(sides, "accident")
    a = (x, y, h)
    b = (x + dist * math.cos(h) - kind * math.sin(h), y + dist * math.sin(h) + kind * math.cos(h), h + dh)
    order = c.pick([("A", "B"), ("B", "A")], "order")
    pose = {"A": a, "B": b}
    ms = {PlayerName(p): VehicleModel.default_car(VehicleState(x=q[0], y=q[1], psi=q[2], vx={"A": 8.0, "B": 1.0}[p], delta=0.0)) for p, q in pose.items()}
    sc = Scenario(0.1)
    if names:
        sc.add_objects(network(names))
    ctx = SimContext(dg_scenario=DgScenario(scenario=sc), models=ms, players={p: AnyAgent() for p in ms}, param=SimParameters())
    rep = resolve_collision(PlayerName(order[0]), PlayerName(order[1]), ctx)
    c.check(rep is not None and set(rep.players) == {"A", "B"}, "report", lambda: str(rep))
    imp = rep.impact_point.coords[0]
    for p, q in pose.items():
        w = at_fault(names, imp, q)
        if w is not None:
            c.compared()
            c.check(rep.players[p].at_fault == w, "fault", lambda: f"{p} at {q} is {'' if rep.players[p].at_fault else 'not '}at fault for an impact at {imp} on {names}")
    ctx.collision_reports.append(rep)
    c.check(who_collided(ctx) == {"A", "B"}, "who", str(who_collided(ctx)))
    c.step()
    c.state((names, a, b, order))
    c.outcome(tuple(rep.players[p].at_fault for p in pose))


def mk_report(ps, t, k=0):
    sq = Polygon([(0, 0), (2, 0), (2, 1), (0, 1)])
    pl = {}
    for i, p in enumerate(ps):
        from shapely.affinity import translate
        f = translate(sq, 3.0 * i + k, 1.5 * i)
        pl[PlayerName(p)] = CollisionReportPlayer(locations=[("front", translate(sq, 3.0 * i + k, 1.5 * i + 0.1)), ("left", translate(sq, 3.0 * i + k + 0.2, 1.5 * i))][: 1 + (i + k) % 2], at_fault=False, footprint=f,
                                                  velocity=(np.array([3.0 + i, -1.0]), 0.25 + i), velocity_after=(np.array([-0.5 * i, 2.0]), -1.5 - i), energy_delta=-1.0)
    return CollisionReport(players=pl, impact_point=Point(2.0 + k, 0.5), impact_normal=np.array([0.6, 0.8]), at_time=t)


def involved(c, names, n):
    """who collided, according to any number of reports"""
    pairs = list(itertools.combinations(names, 2))
    reps = [c.pick(pairs, f"report {i}") for i in range(c.pick(range(n + 1), "reports"))]
    ms = {PlayerName("A"): KINDS["car"].model()}
    ctx = SimContext(dg_scenario=DgScenario(), models=ms, players={p: AnyAgent() for p in ms}, param=SimParameters(), collision_reports=[mk_report(p, D(i)) for i, p in enumerate(reps)])
    got = who_collided(ctx)
    c.check(got == frozenset(p for r in reps for p in r), "who", lambda: f"{got} for {reps}")
    c.check(hash(got) == hash(got), "who", "not frozen")
    c.step()
    c.compared()
    c.state(tuple(reps))
    c.outcome(tuple(sorted(got)))


def mk_log(kinds, ts, tc):
    log = SimLog()
    for i, (p, k) in enumerate(kinds.items()):
        K = KINDS[k]
        st = [K.x0(x=1.0 * j + i, y=-0.5 * j, psi=0.1 * j * j) for j in range(len(ts))]
        cm = [K.cmd(**{n: (j * 3 + q + i) % 5 - 1.5 for q, n in enumerate(K.cmd.idx)}) for j in range(len(tc))]
        log[PlayerName(p)] = PlayerLog(states=DgSampledSequence(timestamps=ts, values=st), commands=DgSampledSequence(timestamps=tc, values=cm),
                                       extra=DgSampledSequence(timestamps=[], values=[]), info=DgSampledSequence(timestamps=tc, values=[0.0] * len(tc)))
    return log


def held(ts, vs, t):
    return [v for u, v in zip(ts, vs) if u <= t][-1]


def logs(c, kinds, grids, n):
    """one subplot for every component of state and command, with the curves of all players"""
    ks = {p: c.pick(kinds if i == 0 else ["same", "car"], f"kind {p}") for i, p in enumerate(("A", "B", "C")[:n])}
    ks = {p: ks["A"] if k == "same" else k for p, k in ks.items()}
    if len({(tuple(f.name for f in fields(KINDS[k].state)), tuple(f.name for f in fields(KINDS[k].cmd))) for k in ks.values()}) > 1:
        ks = {p: ks["A"] for p in ks}
    ts, tc = c.pick(grids, "timestamps")
    log = mk_log(ks, ts, tc)
    how = c.pick(["given", "current", "one by one", "only B"], "how")
    plt.close("all")
    fig = plt.figure()
    decoy = None
    if how in ("given", "only B", "one by one"):
        decoy = plt.figure()  # the current one
    shown = list(ks)
    if how == "given":
        plot_players_logs(log, fig)
    elif how == "current":
        plot_players_logs(log)
    elif how == "only B":
        shown = [p for p in ks if p == "B"]
        plot_players_logs(log, fig, only_players={PlayerName("B")})
    else:
        for p in ks:
            plot_player_log(log[PlayerName(p)], fig)
    what = lambda: f"{how}: {ks}"
    if decoy is not None:
        c.check(not any(a.lines for a in decoy.axes), "figure", lambda: f"plotted into another figure; {what()}")
    axs = [a for a in fig.axes if a.lines]
    fig.canvas.draw()
    K = KINDS[ks["A"]]
    rows = [("state", f.name) for f in fields(K.state)] + [("cmd", f.name) for f in fields(K.cmd)]
    if not shown:
        c.check(not axs, "curves", what)
    else:
        pos = sorted({tuple(round(v, 3) for v in a.get_position().bounds) for a in axs}, key=lambda b: -b[1])
        c.check(len(pos) == len(rows), "curves", lambda: f"{len(pos)} places of subplots for {rows}: {what()}")
        for row, b in zip(rows, pos):
            here = [a for a in axs if tuple(round(v, 3) for v in a.get_position().bounds) == b]
            # what a plot above hides does not count
            top = here[-1]
            vis = top.lines if top.patch.get_alpha() != 0 and top.patch.get_visible() else [l for a in here for l in a.lines]
            c.check(len(vis) == len(shown), "curves", lambda: f"{len(vis)} curves of {row} for {len(shown)} players: {what()}")
            left = list(vis)
            for p in shown:
                seq = log[PlayerName(p)].states if row[0] == "state" else log[PlayerName(p)].commands
                vals = [getattr(v, row[1]) for v in seq.values]
                ok = None
                for ln in left:
                    x, y = [float(v) for v in ln.get_xdata()], list(ln.get_ydata())
                    if len(x) != len(seq.timestamps) or any(abs(u - float(v)) > 1e-9 for u, v in zip(x, seq.timestamps)):
                        continue
                    if row[1] == "lights":
                        ok = ln
                    elif all(abs(float(u) - float(v)) < 1e-9 for u, v in zip(y, vals)):
                        if row[0] == "cmd":
                            # the path that is drawn holds the commands, between the instants
                            path = ln.get_path().vertices
                            drawstyle = ln.get_drawstyle()
                            if drawstyle in ("steps-pre", "steps", "steps-mid", "default") and len(x) > 1:
                                continue
                        ok = ln
                c.compared()
                c.check(ok is not None, "curves", lambda: f"{row} of {p} is not {vals} at {seq.timestamps}: {[(list(l.get_xdata()), list(l.get_ydata()), l.get_drawstyle()) for l in vis]}; {what()}")
                if ok is not None:
                    left.remove(ok)
            c.check(any(row[1] in t.get_text() for t in (top.get_legend().get_texts() if top.get_legend() else [])) or row[1] in top.get_ylabel() or row[1] in top.get_title(), "curves", lambda: f"{row} has no name; {what()}")
    plt.close("all")
    c.step()
    c.state((how, tuple(ks.items()), tuple(ts)))
    c.outcome((how, len(axs)))


def picture(c, n, grids):
    """the plot of an accident: outlines, names, impact, locations, rotational velocities"""
    k = c.pick([0, 1], "report")
    ps = c.pick([("A", "B"), ("B", "A"), ("A", "Env"), ("A", "B", "C"), tuple(f"P{i}" for i in range(10))], "players")
    logged = c.pick([True, False], "in the log")
    at = c.pick([D("0.5"), D("0.25")], "time")
    rep = mk_report(ps, at, k)
    log = mk_log({p: "car" for p in ps if logged and p != "Env"} or {"Z": "car"}, [D(0), D("0.5"), D(1)], [D(0)])
    plt.close("all")
    fig = plt.figure()
    plot_collision(rep, log)
    ax = fig.axes[0]
    fig.canvas.draw()
    what = lambda: f"{list(ps)}, in the log: {logged}, at {at}"
    lines = [np.array(l.get_xydata(), dtype=float) for l in ax.lines]
    texts = [(t.get_text(), t.get_position()) for t in ax.texts]
    fills = [Polygon(p.get_xy()) for p in ax.patches if isinstance(p, matplotlib.patches.Polygon) and len(p.get_xy()) >= 4 and not isinstance(p, matplotlib.patches.FancyArrow)]
    arrows = [p for p in ax.patches if isinstance(p, matplotlib.patches.FancyArrow)]
    c.check(any(l.shape == (1, 2) and np.allclose(l[0], rep.impact_point.coords[0]) for l in lines), "impact", what)
    for i, p in enumerate(ps):
        q = rep.players[p]
        xy = np.array(q.footprint.exterior.coords)
        c.check(any(l.shape == xy.shape and np.allclose(l, xy) for l in lines), "outline", lambda: f"{p}: {what()}")
        if logged and p != "Env":
            want = (float(at) * 2 + i if True else 0, -0.5 * float(at) * 2)
        else:
            want = tuple(q.footprint.centroid.coords[0])
        nm = [pos for t, pos in texts if t == p]
        c.check(len(nm) == 1 and math.dist(nm[0], want) < 1e-6, "name", lambda: f"{p} at {nm} instead of {want}: {what()}")
        for v in (q.velocity[1], q.velocity_after[1]):
            c.check(any(t == f"{v:.3f}" for t, _ in texts), "rotation", lambda: f"{v}: {texts}: {what()}")
        for v in (q.velocity[0], q.velocity_after[0]):
            # an arrow from the centre along the velocity: its tip is the farthest of its points in that direction
            if np.linalg.norm(v) > 1e-9:
                u = v / np.linalg.norm(v)
                hit = False
                for a in arrows:
                    r = np.array(a.get_xy()) - np.array(want)
                    al, ac = r @ u, r @ np.array([-u[1], u[0]])
                    if al.min() > -0.05 and al.max() > 0.2 * np.linalg.norm(v) and abs(ac).max() < 0.06 and al.max() < 0.5 * np.linalg.norm(v) + 0.1:
                        hit = True
                c.check(hit, "velocity", lambda: f"no arrow along {v} of {p}: {what()}")
        for name, sh in q.locations:
            c.check(any(differ(f, sh) < 1e-6 for f in fills), "location", lambda: f"{name} of {p}: {what()}")
            c.check(any(t == name and math.dist(pos, sh.centroid.coords[0]) < 1e-9 for t, pos in texts), "location", lambda: f"name of {name} of {p}: {what()}")
        c.compared(6)
    plt.close("all")
    c.step()
    c.state((ps, logged, str(at), k))
    c.outcome((len(lines), len(texts), len(arrows)))


G = [([D(0), D("0.5"), D(1)], [D(0), D("0.5")]), ([D(0), D(2)], [D(0)])]
HS = [0.0, 1.4, 1.8, 3.0, -1.0]
HARNESSES = [
    dict(name="fault", body=fault, space="lanes x impact x poses of the players",
         quick=dict(worlds=WORLDS, xs=[3.0, 10.0, 38.0, 45.0], ys=[0.0, 1.8, 3.0, 7.0], hs=HS, impacts=[(10.0, 0.5), (10.0, 3.0), (20.5, 1.0), (10.0, -9.0)], n=1),
         thorough=dict(worlds=WORLDS, xs=[-1.0, 3.0, 10.0, 20.0, 38.0], ys=[0.0, 1.8, 3.0, -5.0], hs=[0.0, 1.8, 3.0], impacts=[(10.0, 0.5), (10.0, 3.0), (20.5, 1.0), (10.0, -9.0)], n=2)),
    dict(name="accident", body=accident, space="lanes x pose of the first x kind of accident x order",
         quick=dict(worlds=WORLDS[1:], froms=[(8.0, 0.2, 0.1), (8.0, 3.5, 3.0), (20.0, -3.0, 1.5), (30.0, 1.0, -0.2)], sides=[(0.4, 3.0, 0.3), (1.0, 3.1, 2.6), (-0.5, 2.7, 1.3)]),
         thorough=dict(worlds=WORLDS[1:], froms=[(x, y, h) for x in (8.0, 20.0, 30.0) for y in (0.2, 3.5, -3.0) for h in (0.1, 1.5, 3.0, -0.2)], sides=[(0.4, 3.0, 0.3), (1.0, 3.1, 2.6), (-0.5, 2.7, 1.3), (0.3, 3.2, 0.0), (-0.9, 3.0, -0.6)])),
    dict(name="who", body=involved, space="sequences of reports", args=dict(names=["A", "B", "C", "Env"], n=3)),
    dict(name="logs", body=logs, space="kinds x timestamps x how", quick=dict(kinds=["car", "rocket", "pedestrian"], grids=G, n=2), thorough=dict(kinds=list(KINDS), grids=G, n=3)),
    dict(name="picture", body=picture, space="players x log x time", args=dict(n=2, grids=G)),
]
