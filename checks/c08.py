"""C08 - hitting a static obstacle follows the impulse law against an unmovable body."""
import math
from decimal import Decimal as D

import numpy as np
from shapely import affinity
from shapely.geometry import LinearRing, LineString, Point, Polygon, box

from dg_commons.sim.collision import resolve_collision_with_environment
from dg_commons.sim.models.obstacles import ObstacleGeometry, StaticObstacle

from .geomlib import contact, cross2, vel_at
from .modellib import KINDS, global_velocity, set_global_velocity

ASSUMPTIONS = ["contact normal and point as documented; degenerate contacts are left to C06"]
WALLS = {
    "polygon": Polygon([(0.0, -9.0), (0.8, 9.0), (8.0, 9.0), (8.0, -9.0)]),
    "ring": LinearRing([(0.0, -9.0), (9, -8.0), (9, 9), (-0.5, 9.0)]),
    "segment": LineString([(0.3, -9.0), (-0.2, 9.0)]),
    "polyline": LineString([(0.5, -9.0), (0.1, -1.0), (0.0, 1.5), (0.4, 9.0)]),
    "pillar": Point(1.0, 0.2).buffer(1.0),
    "corner": Polygon([(0.0, 0.1), (6.0, 4.0), (6.0, -5.0)]),
    "hook": Polygon([(0.0, -1.2), (0.5, -1.2), (0.5, 6.0), (-8.0, 6.0), (-8.0, 5.6), (0.1, 5.5)]),
    "stone": Point(0.0, 0.05).buffer(0.03),
}


def body(c, kinds, walls, bearings, psis, depths, vels, spins, es):
    K = KINDS[c.pick(kinds, "kind")]
    wall = c.pick(walls, "wall")
    th, psi, depth = c.pick(bearings, "wall_bearing"), c.pick(psis, "psi"), c.pick(depths, "depth")
    origin = np.array([-30.0, 18.0])
    d = np.array([math.cos(th), math.sin(th)])
    base = affinity.rotate(WALLS[wall], th, origin=(0, 0), use_radians=True)
    m = K.still(*origin, psi)
    fp = m.get_footprint()
    lo, hi = 0.0, 30.0
    at = lambda k: affinity.translate(base, *(origin + k * d))
    for _ in range(60):
        mid = (lo + hi) / 2
        lo, hi = (mid, hi) if fp.intersects(at(mid)) else (lo, mid)
    if lo == 0.0:
        c.count("never_meets")
        return
    shape = at(max(lo - depth, 0.05))
    obst = StaticObstacle(shape, geometry=ObstacleGeometry.default_static(e=c.pick(es, "wall_e")))
    v, w = c.pick(vels, "v"), c.pick(spins, "spin")
    tang = np.array([-d[1], d[0]])
    set_global_velocity(K, m, v[0] * d + v[1] * tang, w)
    exp = contact(fp, shape)
    if exp[0] != "contact":
        c.count("unspecified_contact")
        return
    n, p = exp[1], exp[2]
    v0, w0 = global_velocity(K, m)
    s0 = m.get_state()
    r = p - np.array([s0.x, s0.y])
    before = float(vel_at(v0, w0, r) @ n)
    if abs(before) < 1e-6 and K.name != "diffdrive":
        c.count("grazing")
        return
    rep = resolve_collision_with_environment("P", m, obst, D("2.5"))
    c.step()
    if before < 0:
        c.check(rep is None, "separating", "a body that moves away from the obstacle got a report")
        c.check(m.get_state() == s0 and m.has_collided is False, "separating-state", "it changed anyway")
        c.count("separating")
        return
    c.count("closing")
    c.check(rep is not None, "no-report", f"approaching at {before} and no report")
    others = [k for k in rep.players if k != "P"]
    c.check("P" in rep.players and len(others) == 1 and rep.at_time == D("2.5"), "report-head", f"{set(rep.players)}")
    q, env = rep.players["P"], rep.players[others[0]]
    c.close(rep.impact_normal, n, "normal", "impact normal", tol=1e-6)
    c.close(rep.impact_point.coords[0], p, "point", "impact point", tol=1e-6)
    c.check(q.at_fault is True and env.at_fault is False, "fault", f"fault {q.at_fault}, environment {env.at_fault}")
    c.close(q.velocity[0], v0, "pre-velocity", "velocity before", tol=1e-9)
    c.close(q.velocity[1], w0, "pre-velocity", "yaw rate before", tol=1e-9)
    for vv in (env.velocity, env.velocity_after):
        c.close(vv[0], (0, 0), "env-moves", "velocity of the environment")
        c.close(vv[1], 0, "env-moves", "yaw rate of the environment")
    c.close(env.energy_delta, 0, "env-energy", "energy of the environment")
    u, o = np.array(q.velocity_after[0], dtype=float), q.velocity_after[1]
    g = m.model_geometry
    J = g.m * (u - v0)
    mag = max(float(np.linalg.norm(J)), 1e-9)
    c.close(cross2(n, J) / mag, 0.0, "tangential", "the impulse is not along the normal", tol=1e-5)
    c.check(float(J @ n) <= 1e-9, "attracting", "the impulse pulls the body into the obstacle")
    c.close(o - w0, cross2(r, J) / g.Iz, "angular-impulse", "change of yaw rate", tol=1e-5)
    e = min(g.e, obst.geometry.e)
    after = float(vel_at(u, o, r) @ n)
    c.close(after, -e * before, "restitution", f"normal velocity after, before {before}, e={e}", tol=1e-5)
    k0 = g.m * float(v0 @ v0) + g.Iz * w0 * w0
    k1 = g.m * float(u @ u) + g.Iz * o * o
    c.check(k1 <= k0 * (1 + 1e-6) + 1e-9, "energy-created", f"kinetic energy {k0 / 2} -> {k1 / 2}")
    de = 0.5 * g.m * (float(u @ u) - float(v0 @ v0))
    c.close(q.energy_delta / (1 + abs(de)), de / (1 + abs(de)), "energy-report", f"reported {q.energy_delta}, is {de}",
            tol=1e-6)
    c.check(m.has_collided is True, "flag", "has_collided is not set")
    s1 = m.get_state()
    va, wa = m.get_velocity(in_model_frame=False)
    if K.full_velocity:
        c.close(va, u, "applied-velocity", f"{K.name} velocity after", tol=1e-6)
        c.close(wa, o, "applied-yaw-rate", f"{K.name} yaw rate after", tol=1e-6)
    elif K.name != "diffdrive":
        c.close(s1.vx, float(np.array([math.cos(psi), math.sin(psi)]) @ u), "applied-velocity",
                f"{K.name} longitudinal velocity after", tol=1e-6)
    for k in s0.idx:
        if k not in ("vx", "vy", "dpsi"):
            c.check(getattr(s0, k) == getattr(s1, k), "moved", f"resolving a collision changed {k}")
    hit = {str(k) for k, gg in m.get_mesh().items() if gg.intersects(shape)}
    got = [str(k) for k, _ in q.locations]
    c.check(hit == set(got) and got, "locations", f"impact at {got}, geometry says {sorted(hit)}")
    c.check(q.footprint.equals(fp), "footprint", "reported footprint")
    c.check(env.footprint.geom_type == "Polygon", "env-footprint", "the environment's footprint is not a polygon")
    if shape.geom_type == "Polygon":
        c.check(env.footprint.equals(shape), "env-footprint", "the environment's footprint is not the obstacle")
    c.check(obst.shape is shape or obst.shape.equals(shape), "obstacle-changed", "the obstacle's shape changed")
    c.state((K.name, wall, round(before, 6)))
    c.outcome((K.name, wall, round(after, 6)))


HARNESSES = [
    dict(name="wall", body=body, space="model x obstacle x bearing x heading x depth x velocity x spin x restitution",
         quick=dict(kinds=list(KINDS), walls=list(WALLS), bearings=[0.2, -2.0], psis=[0.1, 1.3], depths=[0.07],
                    vels=[(4.0, 0.7), (-1.0, 1.0)], spins=[0.0, 0.6], es=[0.1, 0.9]),
         thorough=dict(kinds=list(KINDS), walls=list(WALLS), bearings=[0.2, 1.1, 2.4, 3.3, -2.0, -0.7],
                       psis=[0.1, 1.3, 2.9], depths=[0.01, 0.07, 0.19],
                       vels=[(4.0, 0.7), (0.2, -3.0), (-1.0, 1.0)], spins=[0.0, 0.6, -2.0], es=[0.0, 0.1, 0.9])),
]
