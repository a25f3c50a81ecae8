"""C16 - generated trajectories: complete, feasible, and exactly what the vehicle dynamics do."""
import math
from dataclasses import replace
from decimal import Decimal as D

import numpy as np

from dg_commons.dynamics.bicycle_dynamic import BicycleDynamics
from dg_commons.planning.commands_sampler import CommandsSampler, CommandsSamplerParam
from dg_commons.planning.motion_primitives import MotionPrimitivesGenerator, MPGParam
from dg_commons.planning.trajectory import Trajectory
from dg_commons.sim.models.vehicle import VehicleCommands, VehicleState
from dg_commons.sim.models.vehicle_structures import VehicleGeometry
from dg_commons.sim.models.vehicle_utils import VehicleParameters

ASSUMPTIONS = ["a target whose required input is within 1e-9 of a limit may be kept or dropped (unless it is exactly the limit)",
               "integration is compared with a fine reference at 1e-3 relative (the integrator's tolerance)"]
VPS = {"car": VehicleParameters.default_car(), "bike": VehicleParameters.default_bicycle(),
       "odd": VehicleParameters(vx_limits=(-1.0, 4.0), acc_limits=(-2.0, 1.0), delta_max=0.4, ddelta_max=0.3),
       "even": VehicleParameters(vx_limits=(-1.0, 3.0), acc_limits=(-2.0, 1.0), delta_max=0.5, ddelta_max=0.5)}
VGS = {"even": VehicleGeometry.default_truck(), "car": VehicleGeometry.default_car(), "bike": VehicleGeometry.default_bicycle(), "odd": replace(VehicleGeometry.default_car(), lf=1.1, lr=1.9)}


def vec(s):
    return np.array([s.x, s.y, s.psi, s.vx, s.delta], float)


def rate(v, u, vg):
    x, y, psi, vx, delta = v
    w = vx * math.tan(delta) / (vg.lf + vg.lr)
    vy = w * vg.lr
    return np.array([vx * math.cos(psi) - vy * math.sin(psi), vx * math.sin(psi) + vy * math.cos(psi), w, u[0], u[1]])


def clip(a, lo, hi):
    return min(max(a, lo), hi)


def euler(v, u, dt, vg, vp):
    acc, dd = clip(u[0], *vp.acc_limits), clip(u[1], -vp.ddelta_max, vp.ddelta_max)
    n = v + rate(v, (acc, dd), vg) * dt
    n[3], n[4] = clip(n[3], *vp.vx_limits), clip(n[4], -vp.delta_max, vp.delta_max)
    return n


def rk4(v, u, dt, vg, n=200):
    h = dt / n
    for _ in range(n):
        k1 = rate(v, u, vg)
        k2 = rate(v + h / 2 * k1, u, vg)
        k3 = rate(v + h / 2 * k2, u, vg)
        k4 = rate(v + h * k3, u, vg)
        v = v + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
    return v


def step_ref(kind, v, u, dt, vg, vp):
    return euler(v, u, dt, vg, vp) if kind == "euler" else rk4(v, u, dt, vg)


def ivp_slack(before, after, dt, vg):
    """what the integrator (1e-3 of accuracy for each of its steps) may be off by when the heading turns more than 2 rad in one step"""
    v, d = max(abs(before[3]), abs(after[3])), max(abs(before[4]), abs(after[4]))
    return 1e-2 * v * float(dt) if v * math.tan(min(d, 1.5)) / vg.wheelbase * float(dt) > 2 else 0.0


def dynamics(c, kinds, states, accs, rates, dts):
    """the prediction model itself: one step from everywhere"""
    k, kind = c.pick(sorted(VPS), "vehicle"), c.pick(kinds, "integration")
    vp, vg = VPS[k], VGS[k]
    fx, fd_, psi = c.pick(states, "state")
    vx = vp.vx_limits[0] + fx * (vp.vx_limits[1] - vp.vx_limits[0])
    x0 = VehicleState(x=1.0, y=-2.0, psi=psi, vx=vx, delta=fd_ * vp.delta_max)
    u = VehicleCommands(acc=c.pick(accs, "acc") * vp.acc_limits[1], ddelta=c.pick(rates, "ddelta") * vp.ddelta_max)
    dt = c.pick(dts, "dt")
    model = BicycleDynamics(vg, vp)
    if kind == "ivp" and (abs(x0.delta + u.ddelta * float(dt)) > 1.1 or abs(u.ddelta) > vp.ddelta_max):
        return  # this one does not clip: keep away from the singularity of the bicycle model
    before = vec(x0)
    f = model.successor if kind == "euler" else model.successor_ivp
    got = f(x0, u, dt)
    c.check(np.array_equal(vec(x0), before), "mutates", "the initial state was changed")
    want = step_ref(kind, before, (u.acc, u.ddelta), float(dt), vg, vp)
    c.close(vec(got), want, "dynamics", lambda: f"{k} {kind} {x0} {u} {dt}", tol=1e-9 if kind == "euler" else 2e-3 + ivp_slack(before, want, dt, vg),
            rel=1e-9 if kind == "euler" else 2e-3)
    if kind == "euler":
        c.check(vp.vx_limits[0] <= got.vx <= vp.vx_limits[1] and abs(got.delta) <= vp.delta_max, "limits", lambda: f"{got}")
    c.state((k, kind, vec(x0), u.acc, u.ddelta, float(dt)))
    c.outcome(vec(got))


def primitives(c, kinds, dts, steps, grids, starts):
    k, kind = c.pick(sorted(VPS), "vehicle"), c.pick(kinds, "integration")
    vp, vg = VPS[k], VGS[k]
    model = BicycleDynamics(vg, vp)
    dt, n = c.pick(dts, "dt"), c.pick(steps, "n_steps")
    nv, ns = c.pick(grids, "grid")
    src = c.pick(("limits", "custom"), "param")
    if src == "limits":
        par = MPGParam.from_vehicle_parameters(dt, n, nv, ns, vp)
        vgrid, sgrid = np.linspace(*vp.vx_limits, nv), np.linspace(-vp.delta_max, vp.delta_max, ns)
    else:
        par = MPGParam(dt=dt, n_steps=n, velocity=(0.5, 1.5, nv), steering=(-0.1, 0.2, ns))
        vgrid, sgrid = np.linspace(0.5, 1.5, nv), np.linspace(-0.1, 0.2, ns)
    x0 = c.pick(starts, "x0")
    if x0 is not None and not (vp.vx_limits[0] <= x0.vx <= vp.vx_limits[1] and abs(x0.delta) <= vp.delta_max):
        return  # what begins beyond the limits is judged by "dynamics"
    gen = MotionPrimitivesGenerator(par, model.successor if kind == "euler" else model.successor_ivp, vp)
    got = gen.generate(x0=x0) if x0 is not None else gen.generate()
    horizon = float(dt) * n
    starts_ = [(x0.vx, x0.delta)] if x0 is not None else [(a, b) for a in vgrid for b in sgrid]
    need, allowed = [], []
    for v0, s0 in starts_:
        for v1 in vgrid:
            for s1 in sgrid:
                a, r = (v1 - v0) / horizon, (s1 - s0) / horizon
                m = min(a - vp.acc_limits[0], vp.acc_limits[1] - a, vp.ddelta_max - abs(r))
                if m > -1e-9:
                    allowed.append((v0, s0, v1, s1))
                    if m > 1e-9 or (m == 0 and horizon == 1.0):  # the limit itself, in exact arithmetic
                        need.append((v0, s0, v1, s1))
    seen = []
    for tr in got:
        c.check(isinstance(tr, Trajectory) and [float(t) for t in tr.timestamps] == [float(i * dt) for i in range(n + 1)],
                "times", lambda: f"{tr.timestamps}")
        vals = [vec(v) for v in tr.values]
        a, b = vals[0], vals[-1]
        want0 = vec(x0) if x0 is not None else np.array([0, 0, 0, a[3], a[4]])
        c.close(a, want0, "start", lambda: f"{tr.values[0]}")
        near = [q for q in allowed if np.allclose(q, [a[3], a[4], b[3], b[4]], atol=1e-6)]
        c.check(bool(near), "infeasible", lambda: f"{k}: primitive from {a[3:]} to {b[3:]} in {horizon}s is not feasible")
        q = near[0]
        seen.append(q)
        u = ((q[2] - q[0]) / horizon, (q[3] - q[1]) / horizon)
        v, slack = a, 0.0
        for i in range(1, n + 1):
            last, v = v, step_ref(kind, v, u, float(dt), vg, vp)
            slack += ivp_slack(last, v, dt, vg)
            c.close(vals[i], v, "dynamics", lambda: f"{k} {kind} sample {i} of {q}", tol=1e-6 if kind == "euler" else 5e-3 + slack,
                    rel=1e-6 if kind == "euler" else 2e-3)
    c.check(len(set(seen)) == len(seen), "duplicates", "")
    missing = [q for q in need if q not in seen]
    c.check(not missing, "missing", lambda: f"{k} {kind} {src}: {len(missing)} feasible primitives are missing: {missing[:2]}")
    c.count("kept", len(seen))
    c.count("infeasible", len(starts_) * nv * ns - len(allowed))
    c.step(len(got) * n)
    c.state((k, kind, src, float(dt), n, nv, ns, repr(x0)))
    c.outcome((len(seen), len(need)))


def sampler(c, kinds, dts, grids, starts):
    k, kind = c.pick(sorted(VPS), "vehicle"), c.pick(kinds, "integration")
    vp, vg = VPS[k], VGS[k]
    model = BicycleDynamics(vg, vp)
    dt = c.pick(dts, "dt")
    na, ns = c.pick(grids, "grid")
    src = c.pick(("limits", "custom", "illegal"), "param")
    f = model.successor if kind == "euler" else model.successor_ivp
    good = CommandsSamplerParam.from_vehicle_parameters(dt, 1, na, ns, vp)
    agrid, sgrid = np.linspace(*vp.acc_limits, na), np.linspace(-vp.ddelta_max, vp.ddelta_max, ns)
    gen = CommandsSampler(good, f, vp)
    if src == "custom":
        gen.update_params(CommandsSamplerParam(dt=dt, n_steps=1, acc=(-1.0, 0.5, na), steer_rate=(0.0, 0.2, ns)))
        agrid, sgrid = np.linspace(-1.0, 0.5, na), np.linspace(0.0, 0.2, ns)
    elif src == "illegal":
        eps = 0.25
        bad = [((vp.acc_limits[0] - eps, 0.0, na), (0.0, 0.1, ns)), ((0.0, vp.acc_limits[1] + eps, na), (0.0, 0.1, ns)),
               ((0.0, 0.1, na), (-vp.ddelta_max - eps, 0.0, ns)), ((0.0, 0.1, na), (0.0, vp.ddelta_max + eps, ns)),
               ((0.2, 0.1, na), (0.0, 0.1, ns))]
        acc, steer = c.pick(bad, "beyond")
        try:
            gen.update_params(CommandsSamplerParam(dt=dt, n_steps=1, acc=acc, steer_rate=steer))
            c.fail("illegal", f"samples beyond the limits were accepted: {acc} {steer}")
        except AssertionError:
            pass
    x0 = c.pick(starts, "x0")
    got = gen.generate(x0)
    want = {}
    for a in agrid:
        for r in sgrid:
            v = step_ref(kind, vec(x0), (a, r), float(dt), vg, vp)
            want[tuple(np.round(v, 6 if kind == "euler" else 2))] = v
    rows = []
    for tr in got:
        c.check([float(t) for t in tr.timestamps] == [0.0, float(dt)] and tr.values[0] == x0, "start", lambda: f"{tr}")
        rows.append(vec(tr.values[1]))
    tol = 1e-6 if kind == "euler" else 5e-3
    for v in want.values():
        c.check(any(np.all(np.abs(v - r) <= tol * (1 + np.abs(v))) for r in rows), "missing", lambda: f"{k} {src}: no sample reaches {v}")
    for r in rows:
        c.check(any(np.all(np.abs(v - r) <= tol * (1 + np.abs(v))) for v in want.values()), "extra", lambda: f"{k} {src}: {r}")
    c.compared(len(rows) + len(want))
    if kind == "euler":
        c.check(len(rows) <= na * ns, "count", "")
    c.step(len(rows))
    c.state((k, kind, src, float(dt), na, ns, repr(x0)))
    c.outcome(len(rows))


X0 = [VehicleState(x=3.0, y=-1.0, psi=0.7, vx=1.0, delta=0.1), VehicleState(x=0.0, y=0.0, psi=-2.0, vx=3.9, delta=-0.35),
      VehicleState(x=0.0, y=0.0, psi=0.0, vx=-0.2, delta=0.0), VehicleState(x=0.0, y=0.0, psi=1.0, vx=0.0, delta=0.0),
      VehicleState(x=0.0, y=0.0, psi=0.0, vx=0.5, delta=0.0)]
STATES = [(0.0, 0.0, 0.0), (0.3, 1.0, 1.0), (1.0, -0.5, -2.0), (0.6, 0.4, 3.0), (0.99, -1.0, 0.4), (1.05, 1.1, 0.2), (-0.1, -1.1, 0.2)]
HARNESSES = [
    dict(name="dynamics", body=dynamics, space="vehicle x state x commands x step",
         quick=dict(kinds=["euler", "ivp"], states=STATES, accs=[-3.0, -1.0, 0.0, 0.5, 1.0, 2.0], rates=[-2.0, -0.5, 0.0, 1.0, 3.0],
                    dts=[0.1, D("0.05"), 0.4]),
         thorough=dict(kinds=["euler", "ivp"], states=STATES + [(0.5, 0.9, 2.0), (0.05, -0.9, -1.0)],
                       accs=[-3.0, -1.0, -0.3, 0.0, 0.5, 1.0, 2.0], rates=[-2.0, -1.0, -0.5, 0.0, 0.3, 1.0, 3.0],
                       dts=[0.1, D("0.05"), 0.4, 1.0])),
    dict(name="primitives", body=primitives, space="vehicle x integration x step x grid x initial state",
         quick=dict(kinds=["euler", "ivp"], dts=[D("0.1"), D("0.25")], steps=[1, 3], grids=[(2, 2), (3, 3), (1, 4)],
                    starts=[None, X0[0]]),
         thorough=dict(kinds=["euler", "ivp"], dts=[D("0.1"), D("0.25"), D("0.5")], steps=[1, 2, 5], grids=[(2, 2), (3, 3), (1, 4), (5, 3)],
                       starts=[None] + X0)),
    dict(name="corners", body=primitives, space="steps of odd lengths, vehicles at rest, inputs exactly at their limits",
         quick=dict(kinds=["euler"], dts=[D("0.125"), D("0.0625"), D("1")], steps=[1, 4, 8], grids=[(2, 2), (6, 3)], starts=[X0[3], X0[4]]),
         thorough=dict(kinds=["euler", "ivp"], dts=[D("0.125"), D("0.0625"), D("0.033"), D("1")], steps=[1, 4, 8, 16],
                       grids=[(2, 2), (6, 3), (11, 2)], starts=[None, X0[3], X0[4]])),
    dict(name="sampler", body=sampler, space="vehicle x integration x step x grid x initial state x parameters",
         quick=dict(kinds=["euler", "ivp"], dts=[D("0.1"), D("0.3")], grids=[(2, 2), (3, 5), (1, 1)], starts=X0),
         thorough=dict(kinds=["euler", "ivp"], dts=[D("0.1"), D("0.3"), D("0.7")], grids=[(2, 2), (3, 5), (1, 1), (6, 7)], starts=X0)),
]
