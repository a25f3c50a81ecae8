"""C21 - a body that has collided no longer answers to its commands and loses energy (cars excepted)."""
import numpy as np

from .c34 import LEVELS
from .modellib import EVERY, MODELS, global_velocity
from .odelib import asdict, cmd_limits

ASSUMPTIONS = ["cars stay actuated after a collision, dynamic obstacles are externally driven", "steps of at most 0.3 s"]
PASSIVE = ["truck", "bicycle", "truckdyn", "bikedyn", "pedestrian", "diffdrive", "spacecraft", "rocket", "spaceship"]
DAMPED = {"truckdyn", "bikedyn", "pedestrian"}


def energy(k, m, name):
    v, w = global_velocity(k, m)
    g = m.model_geometry
    if name == "pedestrian":
        s = m.get_state()
        v, w = np.array([s.vx, s.vy]), s.dpsi
    lin = float(v @ v)
    return 0.5 * g.m * lin, 0.5 * g.Iz * w * w


def history(c, kinds, starts, levels, dts, depth):
    k = MODELS[c.pick(kinds, "model")]
    name = k.name
    st = dict(k.base)
    f, d = c.pick(starts, "speed,steer")
    for n in st:
        if n in ("vx", "vy", "dpsi"):
            st[n] *= f
        elif n in ("delta", "phi"):
            st[n] *= d
    a, b = k.model(1.0, 2.0, 0.4, **st), k.model(1.0, 2.0, 0.4, **st)
    c.check(a.has_collided is False, "fresh", lambda: f"{name}: a new model has already collided")
    a.has_collided = b.has_collided = True
    dt = c.pick(dts, "dt")
    lim = cmd_limits(name, a)
    zero = k.cmd(**{n: 0.0 for n in lim})
    for j in range(depth):
        s0 = asdict(a.get_state())
        e0, r0 = energy(k, a, name)
        u = {n: LEVELS[c.pick(levels, f"{n}{j}")](*lim[n]) for n in lim}
        a.update(k.cmd(**u), dt), b.update(zero, dt)
        sa, sb = asdict(a.get_state()), asdict(b.get_state())
        c.step()
        c.compared(len(sa) + 1)
        tol = (3e-2 if name.endswith("dyn") else 2e-3)
        for n in sa:
            c.check(abs(sa[n] - sb[n]) <= tol * (1 + abs(sb[n] - s0[n])), "obeys",
                    lambda: f"{name} obeys {u} after a collision: {n}={sa[n]}, without commands {sb[n]} (from {s0})")
        e1, r1 = energy(k, a, name)
        # the bicycle models exchange rotational and translational energy; compare the sum
        if name in ("truckdyn", "bikedyn"):
            c.check(e1 + r1 <= (e0 + r0) * 1.02 + 1e-3, "energy", lambda: f"{name}: energy rose from {e0 + r0} to {e1 + r1} ({s0})")
        else:
            c.check(e1 <= e0 * (1 + 2e-3) + 1e-6 and r1 <= r0 * (1 + 2e-3) + 1e-6, "energy",
                    lambda: f"{name}: energy rose from {e0, r0} to {e1, r1} ({s0})")
        if name in DAMPED and e0 > 1e-3 and dt <= 0.3:
            mu = 3.0 if name == "bikedyn" else 2.0 if name == "pedestrian" else 1.0
            c.check(e1 <= e0 * (1 - 0.5 * mu * dt) + 1e-3 or name == "truckdyn" and e1 + r1 < e0 + r0, "friction",
                    lambda: f"{name}: after {dt}s energy is {e1} of {e0}")
        if name in ("rocket", "spaceship"):
            c.check(sa["m"] == s0["m"], "burns", lambda: f"{name}: burns fuel after a collision")
        c.state((name + k.label, f, d, dt, j, sorted(u.items())))
    c.outcome((name + k.label, [round(x, 5) for x in sa.values()]))


HARNESSES = [
    dict(name="history", body=history, space="model x motion x all histories of commands after the collision",
         quick=dict(kinds=[k + x for k in PASSIVE if k != "rocket" for x in ("", "*")], starts=[(1.0, 1.0), (-0.25, -1.0), (0.0, 1.0)], levels=["lo", "part+", "hi"], dts=[0.1, 0.3],
                    depth=2),
         thorough=dict(kinds=[k + x for k in PASSIVE if k != "rocket" for x in ("", "*")], starts=[(1.0, 1.0), (-0.25, -1.0), (2.0, 0.5), (0.0, 1.0)],
                       levels=["lo", "part+", "hi"], dts=[0.1, 0.3], depth=3)),
    dict(name="rocket", body=history, space="rocket x motion x all histories of commands after the collision",
         quick=dict(kinds=["rocket", "rocket*"], starts=[(1.0, 1.0), (-1.0, -1.0), (0.0, 1.0)], levels=["lo", "part+", "hi"], dts=[0.1, 0.3], depth=2),
         thorough=dict(kinds=["rocket", "rocket*"], starts=[(1.0, 1.0), (-1.0, -1.0), (0.0, 1.0), (2.0, 0.5)], levels=["lo", "part+", "hi"], dts=[0.1, 0.3], depth=2)),
]
