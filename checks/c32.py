"""C32: what is drawn is what is simulated (players, lights, obstacles, goals, frames of an animation)."""
from __future__ import annotations

import contextlib
import math
import os
import re
import tempfile
import warnings
from dataclasses import dataclass
from decimal import Decimal as D

import matplotlib

matplotlib.use("Agg")
import matplotlib.backends.backend_agg
import matplotlib.pyplot as plt
import numpy as np
from matplotlib.animation import AbstractMovieWriter, writers
from matplotlib.colors import to_rgb
from matplotlib.figure import Figure
from shapely.geometry import (GeometryCollection, LinearRing, LineString, MultiLineString, MultiPoint, MultiPolygon, Point, Polygon)

from dg_commons import PlayerName
from dg_commons.maps.shapely_viz import ShapelyViz
from dg_commons.planning.trajectory import Trajectory
from dg_commons.seq.sequence import DgSampledSequence
from dg_commons.sim.agents.agent import NPAgent
from dg_commons.sim.goals import PlanningGoal, PolygonGoal
from dg_commons.sim.models.obstacles import StaticObstacle
from dg_commons.sim.models.vehicle import VehicleCommands, VehicleState
from dg_commons.sim.scenarios.structures import DgScenario
from dg_commons.sim.simulator import SimContext
from dg_commons.sim.simulator_animation import adjust_axes_limits, create_animation, get_lights_colors_from_cmds, lights_colors_from_lights_cmd
from dg_commons.sim.simulator_structures import PlayerLog, SimLog, SimParameters
from dg_commons.sim.simulator_visualisation import SimRenderer

from checks.geomlib import differ
from checks.modellib import DYN_SHAPE, KINDS

warnings.filterwarnings("ignore")
ASSUMPTIONS = ["the figures are drawn by matplotlib's Agg backend; files are written by a recording movie writer in the place of ffmpeg",
               "pixels closer than 0.3 m to the border of a shape are not judged"]

WHITE, YELLOW, RED, BRIGHT, ORANGE = (0.9, 0.9, 0.9), (1.0, 1.0, 0.0), (0.5, 0.0, 0.0), (1.0, 0.0, 0.0), (1.0, 0.5, 0.3)


def lights_model(cmd, acc, t):
    """front left, front right, back left, back right"""
    on = int(math.floor(t / 0.4 + 0.5)) % 2 == 0
    o = [WHITE, WHITE, RED, RED]
    if cmd == "headlights":
        o[:2] = [YELLOW, YELLOW]
    elif on and cmd != "none":
        for i in {"turn_left": (0, 2), "turn_right": (1, 3), "hazard": (0, 1, 2, 3)}[cmd]:
            o[i] = ORANGE
    if acc < 0:
        o = o[:2] + [BRIGHT if x == RED else x for x in o[2:]]
    return tuple(o)


def cols(lc):
    return tuple(tuple(float(v) for v in to_rgb(x)) for x in (lc.front_left, lc.front_right, lc.back_left, lc.back_right))


def lights(c, cmds, accs, times, n):
    """every sequence of lights of a fleet that shares the table of colours"""
    hist = []
    for i in range(n):
        cmd, acc, t = c.pick(cmds, "lights"), c.pick(accs, "acceleration"), c.pick(times, "t")
        typ = float if i % 2 else D
        got = cols(get_lights_colors_from_cmds(VehicleCommands(acc=acc, ddelta=0.1, lights=cmd), t=typ(str(t))))
        c.check(cols(lights_colors_from_lights_cmd(cmd, acc, t)) == got, "lights", lambda: f"two answers for {cmd} at {t}")
        hist.append((cmd, acc, t))
        c.step()
        c.compared()
        c.check(got == lights_model(cmd, acc, t), "lights", lambda: f"{got} instead of {lights_model(cmd, acc, t)} after {hist}")
    c.state(tuple(hist))
    c.outcome(got)


# ------------------------------------------------------------------------------------------------ players
def T(x, y, psi, pts):
    co, si = math.cos(psi), math.sin(psi)
    return [(x + co * a - si * b, y + si * a + co * b) for a, b in pts]


def rect(l0, l1, w):
    return [(l0, -w), (l1, -w), (l1, w), (l0, w)]


def pieces(kind, model, s, cmd, wheels):
    """(colour, polygon) of all that is drawn of a player: written anew from the geometry's dimensions"""
    g = model.model_geometry
    if kind == "dynobs":
        out = [(g.color, T(0, 0, 0, DYN_SHAPE.exterior.coords))]
    elif kind == "diffdrive":
        out = [(g.color, [(g.radius * math.cos(a), g.radius * math.sin(a)) for a in np.linspace(0, 2 * math.pi, 64, endpoint=False)])]
    elif kind in ("car", "truck", "bicycle", "cardyn", "truckdyn", "bikedyn"):
        hw, r = {"c": (0.1, 0.3), "t": (0.2, 0.4), "b": (0.05, 0.3)}[kind[0]]
        fb = r if kind[0] == "b" else g.lf / 2
        out = [(g.color, rect(-g.lr - 2 * r, g.lf + fb, g.w_half + hw))]
    elif kind == "rocket":
        out = [(g.color, [(-g.l_r, g.w_half), (-g.l_r, -g.w_half), (g.l_f + g.l_m, -g.w_half), (g.l_f + g.l_m + g.l_c, 0), (g.l_f + g.l_m, g.w_half)])]
    elif kind == "spaceship":
        out = [(g.color, [(-g.l_r, g.w_half), (-g.l_r, -g.w_half), (g.l_f, -g.w_half), (g.l_f + g.l_c, 0), (g.l_f, g.w_half)])]
    else:
        out = [(g.color, list(g.outline))]
    if wheels and kind == "diffdrive":
        for side in (1, -1):
            out.append(("k", T(0, side * g.wheelbase / 2, 0, rect(-g.wheelradius, g.wheelradius, g.wheelradius / 3))))
    if wheels and kind in ("car", "truck", "bicycle", "cardyn", "truckdyn", "bikedyn"):
        sides = (0,) if kind[0] == "b" else (g.w_half, -g.w_half)
        for x, d in ((g.lf, s.delta), (-g.lr, 0.0)):
            out += [("k", T(x, y, d, rect(-r, r, hw))) for y in sides]
    if kind == "spacecraft":
        out += [("k", T(-g.lr, y, 0, g.thruster_outline)) for y in (g.w_half, -g.w_half)]
    nozzles = []
    if kind == "rocket":
        nozzles = [(g.l_m, -g.w_half / 10, s.phi + math.pi / 2, cmd.F_left), (g.l_m, g.w_half / 10, -s.phi - math.pi / 2, cmd.F_right)]
    if kind == "spaceship":
        nozzles = [(-g.l_r, 0.0, s.delta + math.pi, cmd.thrust)]
    for x, y, a, f in nozzles:
        out.append(("k", T(x, y, a, rect(0, g.l_t_half, g.w_t_half))))
        if s.m > model.model_params.m_v and f > 0:
            out.append(("r", T(x, y, a, [(g.l_t_half, -g.w_t_half), (g.l_t_half + f / g.F_max / 2, 0.0), (g.l_t_half, g.w_t_half)])))
    return [(tuple(round(v, 6) for v in to_rgb(col)), Polygon(T(s.x, s.y, s.psi, pts))) for col, pts in out]


def drawn(ax):
    """(colour, polygon) of the patches with an area, circles (centre, colour), texts of an axes"""
    polys, circles = [], []
    for p in ax.patches:
        if not p.get_visible() or p.get_facecolor()[3] < 0.05:
            continue
        col = tuple(round(v, 6) for v in p.get_facecolor()[:3])
        if isinstance(p, matplotlib.patches.Circle):
            circles.append((tuple(p.center), col, p.get_zorder()))
            continue
        xy = np.asarray(p.get_path().vertices if not hasattr(p, "get_xy") else p.get_xy(), dtype=float)
        if len(xy) >= 3 and Polygon(xy).area > 1e-9:
            polys.append((col, Polygon(xy)))
    return polys, circles, [(t.get_text(), t.get_position()) for t in ax.texts if t.get_visible() and t.get_text()]


def same(c, got, want, key, what):
    rest = list(got)
    for col, p in want:
        tol = 0.02 * p.area + 1e-9
        hit = [i for i, (cg, g) in enumerate(rest) if cg == col and abs(g.area - p.area) < tol and differ(g, p) < tol]
        c.compared()
        c.check(bool(hit), key, lambda: f"nothing like {col} {list(p.exterior.coords)} among {[(cg, list(g.exterior.coords)) for cg, g in got]}: {what()}")
        if hit:
            rest.pop(hit[0])
    c.check(not rest, key, lambda: f"also drawn: {[(cg, list(g.exterior.coords)) for cg, g in rest]}: {what()}")


def mk_state(kind, x, y, psi, k):
    kw = {}
    if "delta" in KINDS[kind].state.idx:
        kw["delta"] = (0.0, 0.4, -0.8)[k]
    if "phi" in KINDS[kind].state.idx:
        kw["phi"] = (0.0, 0.5, -0.4)[k]
    return KINDS[kind].x0(x, y, psi, **kw)


def mk_cmd(kind, k):
    K = KINDS[kind]
    kw = {n: (0.0, 0.7, 1.6)[(k + i) % 3] for i, n in enumerate(K.cmd.idx)}
    return K.cmd(**kw)


class AnyAgent(NPAgent):
    def __init__(self):
        super().__init__(DgSampledSequence(timestamps=[], values=[]))


def context(models, missions=None, obstacles=(), log=None):
    return SimContext(dg_scenario=DgScenario(static_obstacles=list(obstacles)), models=models, players={p: AnyAgent() for p in models},
                      param=SimParameters(), missions=missions or {}, log=log if log is not None else SimLog())


def axes(lim=None, px=100):
    fig = Figure(figsize=(1, 1), dpi=px)
    matplotlib.backends.backend_agg.FigureCanvasAgg(fig)
    ax = fig.add_axes([0, 0, 1, 1])
    if lim:
        ax.set_axis_off()
    return ax


POSES = [(0.0, 0.0, 0.0), (12.0, -7.0, 2.5), (-3.0, 4.0, -1.2), (40.0, 3.0, math.pi)]


def players(c, kinds, seqs, wheels, lamps, fuels):
    """a sequence of drawings of two players, the artists being handed on"""
    kind, other = c.pick(kinds, "kind"), c.pick(["car", "rocket"], "other")
    w, l = c.pick(wheels, "wheels"), c.pick(lamps, "lights")
    seq = c.pick(seqs, "states")
    fuel = c.pick(fuels, "fuel") if kind in ("rocket", "spaceship") else None
    ms = {PlayerName("A"): KINDS[kind].model(), PlayerName("B"): KINDS[other].model()}
    ctx = context(ms)
    ax = axes()
    r = SimRenderer(ctx, ax=ax)
    hands = {}
    names = {"A": kind, "B": other}
    for i, k in enumerate(seq):
        want, wtext, wlights = [], [], []
        for p in ("A", "B"):
            K = names[p]
            pose = POSES[(k + (p == "B") * 2) % 4]
            s, cmd = mk_state(K, *pose, (k + (p == "B")) % 3), mk_cmd(K, k)
            if p == "A" and fuel is not None and i in fuel:
                s.m = ms[p].model_params.m_v
            vehicle = isinstance(s, VehicleState)
            lc = None
            if vehicle:
                lm = ("turn_left", "none", "hazard", "headlights")[(k + (p == "B")) % 4]
                from dg_commons.sim.models.vehicle_ligths import LightsColors
                lw = lights_model(lm, (-1.0, 1.0)[k % 2], 0.0)
                lc = LightsColors(front_left=lw[0], front_right=lw[1], back_left=lw[2], back_right=lw[3])
                if l:
                    g = ms[p].model_geometry
                    hw, rad = {"c": (0.1, 0.3), "t": (0.2, 0.4), "b": (0.05, 0.3)}[K[0]]
                    fb = rad if K[0] == "b" else g.lf / 2
                    corners = [(g.lf + fb, g.w_half - hw), (g.lf + fb, -g.w_half + hw), (-g.lr - 2 * rad, g.w_half - hw), (-g.lr - 2 * rad, -g.w_half + hw)]
                    wlights += list(zip(T(*pose, corners), lw))
            m, la = hands.get(p, (None, None))
            hands[p] = r.plot_player(ax=ax, player_name=PlayerName(p), state=s, command=cmd, lights_colors=lc, model_poly=m,
                                     lights_patches=la, alpha=0.7, plot_wheels=w, plot_lights=l)
            want += pieces(K, ms[p], s, cmd, w)
            if K != "dynobs":
                wtext.append((p, pose[:2]))
            c.step()
        polys, circles, texts = drawn(ax)
        what = lambda: f"drawing {i} of {seq}, {names}, wheels {w}, fuel out at {fuel}"
        same(c, polys, want, "outline", what)
        c.check(len(texts) == len(wtext) and all(any(t == p and math.dist(xy, q) < 1e-9 for t, xy in texts) for p, q in wtext), "name", lambda: f"{texts} instead of {wtext}: {what()}")
        c.check(len(circles) == len(wlights), "lights", lambda: f"{len(circles)} lights instead of {len(wlights)}: {what()}")
        for q, col in wlights:
            c.check(any(math.dist(q, ce) < 1e-9 and max(abs(a - b) for a, b in zip(cc, col)) < 1e-5 for ce, cc, _ in circles), "lights", lambda: f"no light {col} at {q}: {circles}: {what()}")
    c.state((kind, other, w, l, seq, fuel))
    c.outcome((kind, len(want)))


# ------------------------------------------------------------------------------------------------ shapes
A, B = Polygon([(1, 1), (4, 1), (4, 4), (1, 4)]), Polygon([(6, 5), (9, 6), (7, 9)])
RING = Polygon([(1, 1), (9, 1), (9, 9), (1, 9)], [[(2, 2), (5, 2), (5, 5), (2, 5)], [(6, 6), (8, 6), (8, 8), (6, 8)]])
SHAPES = {
    "polygon": A, "clockwise": Polygon(list(A.exterior.coords)[::-1]), "two": MultiPolygon([A, B]), "holes": RING,
    "hole_same_turn": Polygon([(1, 1), (9, 1), (9, 9), (1, 9)], [[(2, 2), (2, 5), (5, 5), (5, 2)]]),
    "nested": MultiPolygon([RING, Polygon([(3, 3), (4, 3), (4, 4), (3, 4)])]),
    "line": LineString([(1, 1), (5, 8), (9, 2)]), "ring": LinearRing([(1, 1), (9, 2), (5, 9)]),
    "lines": MultiLineString([[(1, 1), (4, 9)], [(6, 1), (9, 9)]]),
    "point": Point(4, 6), "points": MultiPoint([(2, 2), (7, 8)]),
    "mixed": GeometryCollection([A, LineString([(6, 1), (9, 9)]), Point(2, 8)]),
    "deep": GeometryCollection([GeometryCollection([B]), MultiPolygon([A])]),
    "empty": Polygon(), "empty_part": GeometryCollection([A]),
}


def parts(s):
    return [x for g in s.geoms for x in parts(g)] if hasattr(s, "geoms") else ([] if s.is_empty else [s])


def pixels(ax):
    ax.set_xlim(0, 10)
    ax.set_ylim(0, 10)
    ax.figure.canvas.draw()
    return np.asarray(ax.figure.canvas.buffer_rgba())[::-1, :, :3].astype(int)


def shapes(c, names, styles, via):
    """what a shape, or two of them, look like: sampled on the drawn picture"""
    how, name, second = c.pick(via, "via"), c.pick(names, "shape"), c.pick([None] + [n for n in names if n in ("polygon", "two", "lines", "points")], "before")
    z = c.pick(styles, "zorder")
    ax = axes(True)
    sh = SHAPES[name]
    if how == "viz":
        v = ShapelyViz(ax)
        if second:
            v.add_shape(SHAPES[second], color="blue", zorder=z[1])
        v.add_shape(sh, color="red", zorder=z[0])
    layers = ([("b", SHAPES[second], z[1])] if second else []) + [("r", sh, z[0])]
    layers.sort(key=lambda x: x[2])
    img = pixels(ax)
    n = 0
    for i in range(0, 100, 4):
        for j in range(0, 100, 4):
            x, y = (i + 0.5) / 10, (j + 0.5) / 10
            pt, top, ok = Point(x, y), None, True
            for col, s, _ in layers:
                for g in parts(s):
                    if g.geom_type == "Polygon":
                        d = g.boundary.distance(pt)
                        if d < 0.3:
                            ok = False
                        elif g.contains(pt):
                            top = col
                    elif g.geom_type == "Point":
                        d = g.distance(pt)
                        if d < 0.12:
                            top = col
                        elif d < 6.0:  # the size of a point is not documented
                            ok = False
                    else:
                        d = g.distance(pt)
                        if d < 1e-9:
                            top = col
                        elif d < 0.8:
                            ok = False
            if not ok:
                continue
            rgb = img[j, i]
            got = "r" if rgb[0] > 180 and rgb[2] < 90 else "b" if rgb[2] > 180 and rgb[0] < 90 else None if min(rgb) > 180 else "?"
            n += 1
            c.check(got == top, "shape", lambda: f"{got} instead of {top} at {(x, y)}: {name} over {second}, {z}")
    # points and lines have to be visible where they are
    for g in parts(sh):
        if g.geom_type == "Point":
            spots = [(g.x, g.y)]
        elif g.geom_type == "Polygon":
            continue
        else:
            spots = [g.interpolate(f, normalized=True).coords[0] for f in (0.1, 0.35, 0.8)]
        for x, y in spots:
            hood = img[max(int(y * 10) - 1, 0):int(y * 10) + 2, max(int(x * 10) - 1, 0):int(x * 10) + 2].reshape(-1, 3)
            if second is None or z[0] > z[1]:
                c.check(any(p[0] - p[1] > 60 and p[0] - p[2] > 60 for p in hood), "shape", lambda: f"nothing drawn at {(x, y)} of {name}")
    c.compared(n)
    c.step()
    c.state((how, name, second, z))
    c.outcome((name, int((img[:, :, 1] < 128).sum())))


@dataclass(frozen=True)
class MovingGoal(PlanningGoal):
    v: float = 1.0

    def is_fulfilled(self, state, at=0):
        return False

    @property
    def is_static(self):
        return False

    def get_plottable_geometry(self, at=0):
        return Polygon(T(20 + self.v * float(at), 3, 0.1 * float(at), [(1, 1), (-1, 1), (-1, -1), (2, -1)]))


@dataclass(frozen=True)
class HiddenGoal(PlanningGoal):
    def is_fulfilled(self, state, at=0):
        return False

    def get_plottable_geometry(self, at=0):
        raise NotImplementedError


def arena(c, n):
    """obstacles and the goals of the players"""
    obs = [StaticObstacle(SHAPES[k]) for k in c.pick([(), ("polygon",), ("two", "lines"), ("holes", "polygon")], "obstacles")]
    goals = {p: c.pick([None, "poly", "moving", "hidden"], f"goal {p}") for p in ("A", "B")[:n]}
    ms = {PlayerName(p): KINDS[k].model() for p, k in zip(("A", "B", "C"), ("car", "rocket", "pedestrian"))}
    G = {"poly": {"A": PolygonGoal(B), "B": PolygonGoal(Polygon([(5, 1), (9, 1), (9, 3)]))}, "moving": {"A": MovingGoal(1.0), "B": MovingGoal(-2.0)}, "hidden": {"A": HiddenGoal(), "B": HiddenGoal()}}
    ctx = context(ms, {PlayerName(p): G[g][p] for p, g in goals.items() if g}, obs)
    ax = axes()
    r = SimRenderer(ctx, ax=ax)
    with r.plot_arena(ax=ax):
        pass
    gd = [(p.get_zorder(), tuple(round(v, 6) for v in p.get_facecolor()[:3])) for p in ax.patches]
    lines = len(ax.lines)
    c.check(lines == sum(1 for o in obs for g in parts(o.shape) if g.geom_type in ("LineString", "LinearRing")), "obstacles", lambda: f"{lines} lines")
    for o in obs:
        col = tuple(round(v, 6) for v in to_rgb(o.geometry.color))
        for g in parts(o.shape):
            if g.geom_type == "Polygon":
                pt = g.representative_point()
                hits = [p for p in ax.patches if tuple(round(v, 6) for v in p.get_facecolor()[:3]) == col and p.get_path().transformed(p.get_patch_transform()).contains_point((pt.x, pt.y))]
                c.check(bool(hits), "obstacles", lambda: f"nothing drawn at {pt} of {o.shape}")
    for p, g in goals.items():
        if g == "poly":
            pt = G[g][p].goal.representative_point()
            col = tuple(round(v, 6) for v in to_rgb(ms[p].model_geometry.color))
            hits = [q for q in ax.patches if tuple(round(v, 6) for v in q.get_facecolor()[:3]) == col and q.get_path().transformed(q.get_patch_transform()).contains_point((pt.x, pt.y))]
            c.check(bool(hits), "goals", lambda: f"goal of {p} is not drawn")
            c.check(r.plot_timevarying_goals(ax=ax, player_name=PlayerName(p), t=1.0) is None, "goals", "a static goal varies")
    n0 = len(ax.patches)
    box = {}
    ts = [c.pick([0.0, 2.0], "t0"), c.pick([0.0, 1.0, 3.5], "t1")]
    for t in ts:
        for p, g in goals.items():
            if g == "moving":
                box[p] = r.plot_timevarying_goals(ax=ax, player_name=PlayerName(p), t=t, goal_box=box.get(p))
                q = Polygon(box[p].get_xy())
                w = G[g][p].get_plottable_geometry(t)
                c.check(differ(q, w) < 1e-6, "goals", lambda: f"goal of {p} at {t}: {q}")
                c.compared()
    c.check(len(ax.patches) == n0 + len(box), "goals", "goals of the past stay")
    c.step()
    c.state((len(obs), tuple(goals.items()), tuple(ts)))
    c.outcome((len(gd), lines))


# ------------------------------------------------------------------------------------------------ limits
def limits(c, kinds, xs, vs):
    st = {}
    for i in range(c.pick([1, 2, 3], "players")):
        x, y = c.pick(xs, "xy")
        st[PlayerName(f"P{i}")] = VehicleState(x=x, y=y, psi=c.pick([0.0, 2.0], "psi") if i == 0 else 0.0, vx=c.pick(vs, "vx") if i == 0 else 1.0, delta=0.0)
    lim = c.pick(["auto", "P0", "fixed"], "limits")
    ax = axes()
    adjust_axes_limits(ax, [[-3.0, 5.0], [1.0, 9.0]], st)  # whatever was shown before
    adjust_axes_limits(ax, ((-20.0, 30.0), (-7.0, 11.0)) if lim == "fixed" else lim, players_states=st)
    (x0, x1), (y0, y1) = ax.get_xlim(), ax.get_ylim()
    X, Y = [s.x for s in st.values()], [s.y for s in st.values()]
    if lim == "fixed":
        want = (-20.0, 30.0, -7.0, 11.0)
    elif lim == "auto":
        want = (min(X) - 15, max(X) + 15, min(Y) - 15, max(Y) + 15)
    else:
        s = st["P0"]
        cx, cy = [a + min(max(1.5 * s.vx * f(s.psi), -70 / 3), 70 / 3) for a, f in ((s.x, math.cos), (s.y, math.sin))]
        want = (cx - 35, cx + 35, cy - 35, cy + 35)
    c.close((x0, x1, y0, y1), want, "limits", lambda: f"{lim} for {st}", tol=1e-6)
    if lim != "fixed":
        for s in [st["P0"]] if lim == "P0" else st.values():
            c.check(x0 < s.x < x1 and y0 < s.y < y1, "limits", lambda: f"{s} is not shown: {(x0, x1, y0, y1)}")
    c.step()
    c.state((lim, tuple((s.x, s.y, s.psi, s.vx) for s in st.values())))
    c.outcome(want)


def focus(c, kinds, poses, others):
    """the camera follows any kind of player"""
    kind = c.pick(kinds, "kind")
    st = {PlayerName(f"Q{i}"): mk_state(c.pick(["car", kind], f"other{i}"), 500.0 * i - 700, 300.0, 1.0, 0) for i in range(c.pick(others, "others"))}
    ax = axes()
    for x, y, psi in poses if c.flag("moving") else [c.pick(poses, "pose")]:
        s = mk_state(kind, x, y, psi, 1)
        adjust_axes_limits(ax, PlayerName("P0"), players_states={**st, PlayerName("P0"): s})
        (x0, x1), (y0, y1) = ax.get_xlim(), ax.get_ylim()
        what = lambda: f"{kind} at {(x, y, psi)}: {(x0, x1, y0, y1)}"
        c.check(x0 < x < x1 and y0 < y < y1, "focus", lambda: f"the player is not shown: {what()}")
        c.close((x1 - x0, y1 - y0), (70.0, 70.0), "focus", what, tol=1e-6)
        if not hasattr(s, "vx"):
            c.close(((x0 + x1) / 2, (y0 + y1) / 2), (x, y), "focus", what, tol=1e-6)
        c.step()
    c.state((kind, len(st), x, y, psi))
    c.outcome((kind, round(x0, 6), round(y0, 6)))


# ------------------------------------------------------------------------------------------------ animation
FRAMES = []


@writers.register("ffmpeg")
class Recorder(AbstractMovieWriter):
    """in the place of ffmpeg"""

    @classmethod
    def isAvailable(cls):
        return True

    def setup(self, fig, outfile, dpi=None):
        super().setup(fig, outfile, dpi)
        FRAMES.append(dict(file=str(outfile), fps=self.fps, frames=[]))

    def grab_frame(self, **kw):
        ax = self.fig.axes[0]
        segs = [[tuple(map(tuple, np.asarray(s))) for s in col.get_segments()] for col in ax.collections
                if hasattr(col, "get_segments") and col.get_visible() and max(col.get_linewidths(), default=0) > 0 and all(e[3] > 0.05 for e in col.get_edgecolors())]
        FRAMES[-1]["frames"].append((*drawn(ax), segs, ax.get_xlim(), ax.get_ylim()))

    def finish(self):
        pass


def animation(c, kinds, begins, ends, dts, extras, gaps):
    kind = c.pick(kinds, "kind")
    b, dur, dt = c.pick(begins, "begin"), c.pick(ends, "duration"), c.pick(dts, "dt")
    ex = c.pick(extras, "extra")
    goal = c.pick([None, "moving"], "goal")
    lim = c.pick(["auto", "A"], "limits") if kind == "car" else "auto"
    name = c.pick(["out.mp4", "out.gif", "out"], "file") if kind == "car" else "out.mp4"
    ms = {PlayerName("A"): KINDS[kind].model(), PlayerName("B"): KINDS["truck"].model()}
    n = 3
    tt = [b + D(str(dur)) * i / (n - 1) for i in range(n)]
    log = SimLog()
    vel = {"A": (3.0, 1.0), "B": (-2.0, 4.0)}
    st = lambda p, t: (float(t - b) * vel[p][0] + (p == "B") * 9, float(t - b) * vel[p][1], 0.3 if p == "A" else -2.0)
    names = {"A": kind, "B": "truck"}
    lamp = {"A": ["none", "turn_left", "headlights"], "B": ["hazard", "hazard", "none"]}
    acc = {"A": [1.0, -1.0, 1.0], "B": [-1.0, 1.0, 1.0]}
    traj = lambda k: Trajectory(timestamps=[D(0), D(1)], values=[VehicleState(x=k, y=1.0, psi=0.0, vx=1.0, delta=0.0), VehicleState(x=k + 2, y=2.0, psi=0.0, vx=1.0, delta=0.0)])
    for p in ms:
        ss = [mk_state(names[p], *st(p, t), 1) for t in tt]
        cc = []
        for i in range(n):
            cmd = mk_cmd(names[p], i)
            if hasattr(cmd, "lights"):
                cmd = VehicleCommands(acc=acc[p][i], ddelta=0.0, lights=lamp[p][i])
            cc.append(cmd)
        e = {"none": [None] * n, "always": [[(traj(float(i)), "green")] for i in range(n)], "later": [None] + [[(traj(float(i)), "green"), (traj(5.0), "blue")] for i in range(1, n)]}[ex]
        if p == "B":
            e = [None] * n
        log[p] = PlayerLog(states=DgSampledSequence(timestamps=tt, values=ss), commands=DgSampledSequence(timestamps=tt, values=cc),
                           extra=DgSampledSequence(timestamps=[t for t, v in zip(tt, e) if v], values=[v for v in e if v]), info=DgSampledSequence(timestamps=tt, values=[0.0] * n))
    G = MovingGoal(1.0)
    ctx = context(ms, {PlayerName("A"): G} if goal else {}, [StaticObstacle(A)], log)
    FRAMES.clear()
    with tempfile.TemporaryDirectory() as d:
        with open(os.devnull, "w") as null, contextlib.redirect_stderr(null):
            create_animation(os.path.join(d, name), ctx, figsize=(2, 2), dt=dt, dpi=20, plot_limits=lim)
    plt.close("all")
    what = lambda: f"{kind} from {b} for {dur} s, dt {dt} ms, extra {ex}, goal {goal}"
    c.check(len(FRAMES) == 1, "frames", what)
    rec = FRAMES[0]
    c.check(os.path.basename(rec["file"]) == ("out.mp4" if name == "out" else name), "file", lambda: rec["file"])
    step = min(dt, 1000) / 1000
    c.check(rec["fps"] == math.ceil(1 / step - 1e-9), "frames", lambda: f"{rec['fps']} frames per second: {what()}")
    k = float(dur) / step
    ok = {math.floor(k - 1e-6), math.floor(k + 1e-6)}
    c.check(len(rec["frames"]) in ok, "frames", lambda: f"{len(rec['frames'])} frames instead of {ok}: {what()}")
    for i, (polys, circles, texts, segs, xl, yl) in enumerate(rec["frames"]):
        t = float(b) + i * step
        j = max(q for q in range(n) if float(tt[q]) <= t + 1e-9)
        near = any(abs(float(q) - t) < 1e-6 for q in tt)
        if near and i:
            js = {max(q for q in range(n) if float(tt[q]) <= t + e) for e in (-1e-6, 1e-6)}
        else:
            js = {j}
        bad = []
        for j in sorted(js):
            try:
                want, wl = [(tuple(round(v, 6) for v in to_rgb(StaticObstacle(A).geometry.color)), A)], []
                for p in ms:
                    s = mk_state(names[p], float(t - float(b)) * vel[p][0] + (p == "B") * 9, (t - float(b)) * vel[p][1], 0.3 if p == "A" else -2.0, 1)
                    want += pieces(names[p], ms[p], s, log[p].commands.values[j], True)
                    if isinstance(s, VehicleState) and abs((t / 0.4) % 1 - 0.5) > 1e-3:
                        wl += lights_model(lamp[p][j], acc[p][j], t)
                if goal:
                    want.append((tuple(round(v, 6) for v in to_rgb(ms["A"].model_geometry.color)), G.get_plottable_geometry(t)))
                same(c, polys, want, "frame", lambda: f"frame {i} at {t}: {what()}")
                if wl and abs((t / 0.4) % 1 - 0.5) > 1e-3:
                    gl = sorted(cc for _, cc, _ in circles)
                    c.close(gl, sorted(wl), "frame-lights", lambda: f"frame {i} at {t}: {what()}", tol=1e-5)
                e = {"none": [], "always": [[((j + 0.0, 1.0), (j + 2.0, 2.0))]], "later": [[((j + 0.0, 1.0), (j + 2.0, 2.0)), ((5.0, 1.0), (7.0, 2.0))]] if j else []}[ex]
                c.check([s for s in segs if s] == e, "frame-extra", lambda: f"{segs} instead of {e} in frame {i} at {t}: {what()}")
                break
            except Exception as err:
                bad.append(err)
        if len(bad) == len(js):
            raise bad[0]
        clock = [x for x, _ in texts if re.fullmatch(r"t = -?[\d.]+s", x)]
        c.check(len(clock) == 1 and abs(float(clock[0][4:-1]) - t) <= 0.05 + 1e-6, "clock", lambda: f"{texts} at {t}: {what()}")
        c.check({x for x, _ in texts} - set(clock) == {p for p in ms if names[p] != "dynobs"}, "name", lambda: f"{texts}: {what()}")
        sx, sy, _ = st("A", b + D(str(round(i * step, 9))))
        c.check(xl[0] < sx < xl[1] and yl[0] < sy < yl[1], "limits", lambda: f"A is not shown in frame {i}: {what()}")
        c.step()
    c.state((kind, b, dur, dt, ex, goal, lim, name))
    c.outcome((kind, len(rec["frames"])))


SEQ1 = [(0,), (1,), (3,)]
SEQ2 = [(a, b) for a in range(4) for b in range(4)]
SEQ3 = [(a, b, d) for a in range(4) for b in range(4) for d in range(4)]
ALLK = list(KINDS)
CMDS = ["none", "headlights", "turn_left", "turn_right", "hazard"]
HARNESSES = [
    dict(name="lights", body=lights, space="sequences of lights commands x acceleration x time",
         quick=dict(cmds=CMDS, accs=[0.0, -1.0], times=[0.0, 0.45, 0.9], n=2), thorough=dict(cmds=CMDS, accs=[0.0, -1.0, 1.0], times=[0.0, 0.19, 0.21, 0.59, 0.61, 7.3], n=2)),
    dict(name="players", body=players, space="kind x other kind x wheels x lights x sequences of states",
         quick=dict(kinds=ALLK, seqs=[(0, 1), (1, 3), (2, 0, 1)], wheels=[False, True], lamps=[False, True], fuels=[(), (1,), (0,)]),
         thorough=dict(kinds=ALLK, seqs=SEQ1 + SEQ2 + SEQ3, wheels=[False, True], lamps=[False, True], fuels=[(), (1,), (0,), (0, 1)])),
    dict(name="shapes", body=shapes, space="shape x shape below x order", args=dict(names=list(SHAPES), styles=[(3, 2), (40, 32), (2, 3)], via=["viz"])),
    dict(name="arena", body=arena, space="obstacles x goals x times", args=dict(n=2)),
    dict(name="limits", body=limits, space="players x positions x speeds x kind of limits",
         quick=dict(kinds=None, xs=[(0.0, 0.0), (100.0, -40.0)], vs=[0.0, 30.0]), thorough=dict(kinds=None, xs=[(0.0, 0.0), (100.0, -40.0), (-1e4, 3.0)], vs=[0.0, 5.0, 30.0, -10.0])),
    dict(name="focus", body=focus, space="kind of the focused player x others x poses",
         args=dict(kinds=ALLK, poses=[(0.0, 0.0, 0.4), (-60.0, 25.0, 3.0), (1e3, -2e3, -1.2)], others=[0, 1, 2])),
    dict(name="animation", body=animation, space="kind x begin x duration x dt x extras x goal",
         quick=dict(kinds=["car", "rocket"], begins=[D(0), D("2.5")], ends=[D("0.5"), D(2)], dts=[100, 300, 1500], extras=["none", "always", "later"], gaps=None),
         thorough=dict(kinds=ALLK, begins=[D(0), D("2.5"), D("-1")], ends=[D("0.5"), D(2), D("3.7")], dts=[30, 100, 300, 1500], extras=["none", "always", "later"], gaps=None)),
]
