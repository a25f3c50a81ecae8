"""C20 - models live on the plane: moving the world moves the outcome; footprint and impact mesh follow the body."""
import math
from dataclasses import replace

import numpy as np
from shapely.geometry import Point, Polygon
from shapely.ops import unary_union

from dg_commons.sim.collision_structures import IMPACT_BACK, IMPACT_EVERYWHERE, IMPACT_FRONT, IMPACT_LEFT, IMPACT_RIGHT

from .geomlib import differ
from .modellib import DYN_SHAPE, ODD_SHAPE, EVERY, MODELS, rot
from .odelib import asdict, cmd_limits
from .c34 import LEVELS, starts

ASSUMPTIONS = ["the integrator works in absolute coordinates: outcomes agree up to its accuracy (2e-3 of the motion, 6e-2 where "
               "a limit or the tyre model's low-speed switch is met)"]
MOTIONS = [((0.0, 0.0), math.pi / 2), ((5.0, -3.0), 0.7), ((-20.0, 11.0), -2.9), ((0.0, 100.0), 0.0), ((1.0, 1.0), 2 * math.pi)]


def equivariant(c, kinds, motions, levels, dts):
    k = MODELS[c.pick(kinds, "model")]
    name = k.name
    st = starts(name, k.model())
    i = c.choose(len(st), "state")
    (tx, ty), th = c.pick(motions, "motion")
    lim = cmd_limits(name, k.model())
    u = {n: LEVELS[c.pick(levels, n)](*lim[n]) for n in lim}
    dt = c.pick(dts, "dt")
    d = dict(st[i])
    a = k.model(1.0, -2.0, **d)
    s0 = asdict(a.get_state())
    R = rot(th)
    p = R @ np.array([1.0, -2.0]) + [tx, ty]
    d["psi"] += th
    if k.frame == "global":
        d["vx"], d["vy"] = (float(x) for x in R @ [s0["vx"], s0["vy"]])
    b = k.model(float(p[0]), float(p[1]), **d)
    a.update(k.cmd(**u), dt), b.update(k.cmd(**u), dt)
    sa, sb = asdict(a.get_state()), asdict(b.get_state())
    want = dict(sa)
    q = R @ [sa["x"], sa["y"]] + [tx, ty]
    want.update(x=q[0], y=q[1], psi=sa["psi"] + th)
    if k.frame == "global":
        want["vx"], want["vy"] = R @ [sa["vx"], sa["vy"]]
    coarse = name.endswith("dyn") or name == "dynobs" or any(
        not lo + 0.02 * (hi - lo) < x[n] < hi - 0.02 * (hi - lo) for n, (lo, hi) in _lims(name, a).items() for x in (sa, s0))
    if name in ("rocket", "spaceship") and sa["m"] <= a.model_params.m_v + 0.01:
        coarse = True
    move = max(abs(sa[n] - s0[n]) for n in sa)
    for n in sa:
        c.check(abs(sb[n] - want[n]) <= (6e-2 if coarse else 2e-3) * (1 + move), "equivariance",
                lambda: f"{name} from {s0} moved by {tx, ty, th} under {u}: {n}={sb[n]}, expected {want[n]}")
    c.compared(len(sa))
    # footprint, mesh and pose move along
    fa, fb = a.get_footprint(), b.get_footprint()
    moved = Polygon([R @ xy + [tx, ty] for xy in np.array(fa.exterior.coords)])
    tol = (0.2 if coarse else 0.02) * (1 + move) * fa.length
    c.check(differ(moved, fb) <= tol, "footprint-moves", lambda: f"{name} {s0}")
    c.state((name + k.label, i, tx, th, sorted(u.items())))
    c.outcome((name + k.label, round(sb["x"], 4), round(sb["psi"], 4)))


def _lims(name, m):
    from .odelib import state_limits

    return state_limits(name, m)


def body_outline(name, m, label=""):
    return (ODD_SHAPE if label else DYN_SHAPE) if name == "dynobs" else Polygon(m.model_geometry.outline)


def shape(c, kinds, poses):
    """the footprint is the outline at the pose; the mesh covers it, and its parts are where they say"""
    k = MODELS[c.pick(kinds, "model")]
    name = k.name
    (x, y), psi = c.pick(poses, "pose")
    m = k.model(x, y, psi)
    moved = c.pick([None, (3.0, -2.0, 1.0), (0.0, 0.0, 1.0), (0.0, 0.0, -2e-3), (0.0, 1e-3, 0.0), (-0.5, 0.0, 0.0)], "moved by set_state")
    if moved:
        m.get_footprint(), m.get_mesh()
        s = m.get_state()
        if c.flag("in place"):
            s.x, s.y, s.psi = s.x + moved[0], s.y + moved[1], s.psi + moved[2]
        else:
            s = replace(s, x=s.x + moved[0], y=s.y + moved[1], psi=s.psi + moved[2])
        m.set_state(s)
        x, y, psi = x + moved[0], y + moved[1], psi + moved[2]
    f = m.get_footprint()
    R = rot(psi)
    want = Polygon([R @ xy + [x, y] for xy in np.array(body_outline(name, m, k.label).exterior.coords)])
    c.check(f.is_valid and differ(f, want) < 1e-6 * (1 + want.area), "footprint",
            lambda: f"{name} at {x, y, psi}: {f.wkt[:200]}")
    pose = np.asarray(m.get_pose())
    c.close(pose, [[R[0, 0], R[0, 1], x], [R[1, 0], R[1, 1], y], [0, 0, 1]], "pose", name, tol=1e-9)
    mesh = m.get_mesh()
    for loc, poly in mesh.items():
        c.check(poly.is_valid and poly.area > 0, "mesh-valid", lambda: f"{name} {loc}")
        c.check(poly.difference(f).area < 1e-6 * f.area, "mesh-outside", lambda: f"{name} {loc}: sticks out of the footprint")
    cover = unary_union(list(mesh.values()))
    c.check(f.difference(cover).area < 1e-6 * f.area, "mesh-covers", lambda: f"{name}: {f.difference(cover).area} not covered")
    c.check(abs(sum(p.area for p in mesh.values()) - f.area) < 1e-6 * f.area, "mesh-overlaps", lambda: f"{name}")
    c.compared(4 + len(mesh))
    side = {IMPACT_FRONT: (1, 0), IMPACT_BACK: (-1, 0), IMPACT_LEFT: (0, 1), IMPACT_RIGHT: (0, -1)}
    if set(mesh) != {IMPACT_EVERYWHERE}:
        c.check(set(mesh) == set(side), "mesh-parts", lambda: f"{name}: {set(mesh)}")
        cen = np.array(f.centroid.coords[0])
        for loc, d in side.items():
            dirn = R @ np.array(d)
            rel = np.array(mesh[loc].centroid.coords[0]) - cen
            c.check(rel @ dirn > 0.7 * np.linalg.norm(rel), "mesh-side", lambda: f"{name}: {loc} lies towards {rot(-psi) @ rel}")
    c.state((name + k.label, x, y, psi))
    c.outcome((name + k.label, round(f.area, 6), len(mesh)))


def handed_out(c, kinds, poses, dts):
    """what a model hands out is the caller's: editing it does not move the model, and the model moving does not edit it"""
    k = MODELS[c.pick(kinds, "model")]
    name = k.name
    (x, y), psi = c.pick(poses, "pose")
    m = k.model(x, y, psi)
    order = c.pick(["edit", "update", "velocity", "set", "given"], "then")
    s = m.get_state()
    fp, pose = m.get_footprint(), np.array(m.get_pose())
    before = asdict(s)
    what = lambda: f"{name} at {x, y, psi}, {order}"
    if order == "edit":
        for q in before:
            setattr(s, q, getattr(s, q) + 1.5)
        c.check(asdict(m.get_state()) == before, "state-shared", lambda: f"{asdict(m.get_state())} was {before}: {what()}")
        c.check(differ(m.get_footprint(), fp) < 1e-9, "footprint-moved", what)
    elif order == "update":
        lim = cmd_limits(name, m)
        m.update(k.cmd(**{n: LEVELS["part+"](*lim[n]) for n in lim}), c.pick(dts, "dt"))
        c.check(asdict(s) == before, "state-shared", lambda: f"the state from before became {asdict(s)}, was {before}: {what()}")
    elif order == "velocity":
        m.set_velocity(np.array([1.5, -0.5]), 0.25, in_model_frame=c.flag("in model frame"))
        c.check(asdict(s) == before, "state-shared", lambda: f"the state from before became {asdict(s)}, was {before}: {what()}")
    elif order == "set":
        t = replace(s, x=s.x + 1.0, psi=s.psi - 0.5)
        m.set_state(t)
        c.check(asdict(s) == before, "state-shared", lambda: f"the state from before became {asdict(s)}, was {before}: {what()}")
        got = asdict(m.get_state())
        c.check(got == asdict(t), "set", lambda: f"{got}, expected {asdict(t)}: {what()}")
    else:  # two models of the same start state
        n1, n2 = k.model(x, y, psi), k.model(x, y, psi)
        n1.update(k.cmd(**{n: LEVELS["part+"](*v) for n, v in cmd_limits(name, m).items()}), c.pick(dts, "dt"))
        c.check(asdict(n2.get_state()) == before, "models-shared", lambda: f"{asdict(n2.get_state())} was {before}: {what()}")
        n1.has_collided = True
        c.check(not m.has_collided and not n2.has_collided, "models-shared", lambda: f"has collided: {what()}")
    c.step()
    c.compared(2)
    c.state((name + k.label, x, psi, order))
    c.outcome((name + k.label, order))


POSES = [((0.0, 0.0), 0.0), ((10.0, -4.0), 1.0), ((-3.0, 8.0), -2.5), ((1000.0, 500.0), 4.0)]
ALL = EVERY
HARNESSES = [
    dict(name="equivariant", body=equivariant, space="model x state x rigid motion x commands",
         quick=dict(kinds=ALL, motions=MOTIONS[:3], levels=["lo", "part+"], dts=[0.1]),
         thorough=dict(kinds=ALL, motions=MOTIONS, levels=["lo", "zero", "part+"], dts=[0.05, 0.1])),
    dict(name="handed_out", body=handed_out, space="model x pose x what happens next", quick=dict(kinds=ALL, poses=POSES[:3], dts=[0.1]),
         thorough=dict(kinds=ALL, poses=POSES, dts=[0.05, 0.2])),
    dict(name="shape", body=shape, space="model x pose", quick=dict(kinds=ALL, poses=POSES), thorough=dict(kinds=ALL, poses=POSES)),
]
