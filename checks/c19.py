"""C19 - reported velocities are the derivative of the pose, in both frames, and can be set."""
import math

import numpy as np

from .modellib import EVERY, FULL, MODELS, put, rot
from .odelib import asdict, cmd_limits

ASSUMPTIONS = ["the differential drive does not carry its velocity in its state; the turning rate of a pedestrian is commanded, "
               "not a state; the tyre model switches to the kinematic one below 0.1 m/s"]
PSIS = [0.0, 0.7, -2.2, 3.1, 7.0]
VELS = [(3.0, 0.0, 0.0), (2.0, 1.0, -0.5), (0.4, -0.8, 1.2), (-1.0, 0.3, 0.2), (0.0, 0.0, 0.0)]


def setting(c, kinds, psis, vels, forms):
    k = MODELS[c.pick(kinds, "model")]
    name = k.name
    psi = c.pick(psis, "psi")
    m = k.model(2.0, -3.0, psi)
    local = c.flag("in model frame")
    (vx, vy, w) = c.pick(vels, "velocity")
    form = c.pick(forms, "form")
    vel = np.array([vx, vy]) if form == "array" else [vx, vy]
    before = asdict(m.get_state())
    pose = m.get_pose().copy()
    m.set_velocity(vel, w, in_model_frame=local)
    vel[0] = 99.0
    c.compared(4)
    full = name in FULL
    v_l = np.array([vx, vy]) if local else rot(-psi) @ np.array([vx, vy])
    if not full:
        after = asdict(m.get_state())
        c.check(name == "diffdrive" or abs(after["vx"] - v_l[0]) < 1e-9, "set", lambda: f"{name}: vx={after.get('vx')}")
        c.check(all(after[x] == before[x] for x in before if x != "vx"), "touches", lambda: f"{name}: {before} -> {after}")
        c.state((name + k.label, psi, local, vx, vy, w))
        return
    got_l, w_l = m.get_velocity(in_model_frame=True)
    got_g, w_g = m.get_velocity(in_model_frame=False)
    c.close(got_l, v_l, "set-local", lambda: f"{name} psi={psi} set {vx, vy} local={local}", tol=1e-9)
    c.close(got_g, rot(psi) @ v_l, "set-global", lambda: f"{name} psi={psi} set {vx, vy} local={local}", tol=1e-9)
    c.close([w_l, w_g], [w, w], "set-omega", lambda: f"{name}: omega {w}", tol=1e-12)
    after = asdict(m.get_state())
    c.check(all(after[x] == before[x] for x in before if x not in ("vx", "vy", "dpsi")), "touches",
            lambda: f"{name}: setting the velocity changed the state from {before} to {after}")
    c.check(np.array_equal(pose, m.get_pose()), "pose", name)
    c.state((name + k.label, psi, local, vx, vy, w))
    c.outcome((name + k.label, np.round(got_g, 6).tolist()))


def derivative(c, kinds, psis, speeds, levels):
    """the velocity is what moves the pose"""
    k = MODELS[c.pick(kinds, "model")]
    name = k.name
    psi = c.pick(psis, "psi")
    f = c.pick(speeds, "speed")
    st = {n: v * (f if n in ("vx", "vy", "dpsi") else 1.0) for n, v in k.base.items()}
    m = k.model(2.0, -3.0, psi, **st)
    if name.endswith("dyn") and m.get_state().vx < 0.11:
        return
    v, w = m.get_velocity(in_model_frame=False)
    vl, wl = m.get_velocity(in_model_frame=True)
    c.close(rot(psi) @ np.asarray(vl, float), v, "frames", lambda: f"{name} psi={psi}", tol=1e-9)
    c.close(w, wl, "frames", name)
    s0 = asdict(m.get_state())
    lim = cmd_limits(name, m)
    u = {n: c.pick(levels, n) * lim[n][1] for n in lim}
    dt = 1e-5
    m.update(k.cmd(**u), dt)
    s1 = asdict(m.get_state())
    c.close([(s1["x"] - s0["x"]) / dt, (s1["y"] - s0["y"]) / dt], np.asarray(v, float), "derivative",
            lambda: f"{name} psi={psi} {s0} {u}", tol=2e-3)
    if name != "pedestrian":
        c.close((s1["psi"] - s0["psi"]) / dt, w, "derivative-yaw", lambda: f"{name} {s0} {u}", tol=2e-3)
    c.state((name + k.label, psi, f, sorted(u.items())))
    c.outcome((name + k.label, np.round(v, 5).tolist(), round(float(w), 5)))


HARNESSES = [
    dict(name="setting", body=setting, space="model x heading x frame x velocity",
         quick=dict(kinds=EVERY, psis=PSIS, vels=VELS, forms=["array", "list"]),
         thorough=dict(kinds=EVERY, psis=PSIS + [-0.4, 1.6, -9.0], vels=VELS + [(5.0, -2.0, 2.0)], forms=["array", "list"])),
    dict(name="derivative", body=derivative, space="model x heading x speed x commands",
         quick=dict(kinds=[k for k in EVERY if not k.startswith("diffdrive")], psis=PSIS, speeds=[0.0, 0.5, 1.0, -0.4, 2.5], levels=[-0.5, 0.0, 0.8]),
         thorough=dict(kinds=[k for k in EVERY if not k.startswith("diffdrive")], psis=PSIS + [-0.4, 1.6], speeds=[0.0, 0.5, 1.0, -0.4, -1.0, 2.5],
                       levels=[-1.0, -0.5, 0.0, 0.8, 1.0])),
]
