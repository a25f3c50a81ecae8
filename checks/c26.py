"""C26 - PID: the discrete control law with saturation and anti-windup, along every history; closed loops reach their reference."""
import math
from dataclasses import replace

from dg_commons.controllers.pid import PID, PIDParam
from dg_commons.controllers.speed import SpeedController, SpeedControllerParam
from dg_commons.controllers.steer import SteerController, SteerControllerParam
from dg_commons.sim.models.vehicle_utils import VehicleParameters

from .modellib import KINDS
from .odelib import asdict

ASSUMPTIONS = ["requests come at non-decreasing times", "closed loops: kinematic models of car and bicycle, commands every 0.1 s"]
clip = lambda x, lo, hi: max(lo, min(hi, x))
GAINS = {"default": (4.0, 0.01, 0.1), "all": (1.5, 0.8, 0.25), "p": (2.0, 0.0, 0.0), "i": (0.0, 1.0, 0.0), "d": (0.0, 0.0, 0.5), "wind": (0.3, 5.0, 0.0)}
LIMITS = {"unit": ((-1, 1), (-1, 1), (-1, 1)), "skew": ((-0.2, 0.6), (-2.0, 5.0), (-3.0, 1.5)), "wide": ((-50, 50), (-100, 100), (-1000, 1000)),
          "positive": ((0.1, 2.0), (0.5, 3.0), (-0.5, 4.0))}


class Ref:
    def __init__(self, k, lim):
        self.k, (self.aw, self.sp, self.out) = k, lim
        self.m, self.r, self.i, self.e, self.t = 0.0, 0.0, 0.0, 0.0, None

    def control(self, t):
        e = self.r - self.m
        dt = 0.0 if self.t is None else t - self.t
        self.i = clip(self.i + self.k[1] * e * dt, *self.aw)
        d = (e - self.e) / dt if dt else 0.0
        self.t, self.e = t, e
        raw = self.k[0] * e + self.i + self.k[2] * d
        return clip(raw, *self.out), raw


def history(c, gains, limits, signals, dts, depth, t0s):
    g, l = c.pick(gains, "gains"), c.pick(limits, "limits")
    kP, kI, kD = GAINS[g]
    aw, sp, out = LIMITS[l]
    prm = PIDParam(kP=kP, kI=kI, kD=kD, antiwindup=aw, setpoint_minmax=sp, output_minmax=out)
    p = PID(prm)
    idle = PID(prm)
    ref = Ref(GAINS[g], LIMITS[l])
    t = c.pick(t0s, "t0")
    for j in range(depth):
        meas, want = c.pick(signals, f"measured,reference{j}")
        if meas is not None:
            p.update_measurement(meas)
            ref.m = meas
        if want is not None:
            p.update_reference(want)
            ref.r = clip(want, *sp)
        u = p.get_control(t)
        w, raw = ref.control(t)
        c.step()
        c.compared(4)
        what = lambda: f"{g} {l}: at {t} measured {ref.m}, reference {ref.r}: {u}, expected {w}"
        c.check(isinstance(u, float) and math.isfinite(u), "type", what)
        c.check(out[0] <= u <= out[1], "saturation", what)
        c.check(abs(u - w) <= 1e-9 * (1 + abs(w)), "law", what)
        c.check(aw[0] <= p.last_integral_error <= aw[1] if hasattr(p, "last_integral_error") else True, "windup", what)
        c.state((g, l, round(u, 9), round(ref.i, 9), round(ref.e, 9)))
        t = t + c.pick(dts, f"dt{j}") if j < depth - 1 else t
    c.check(idle.get_control(0.0) == clip(clip(0.0, *aw), *out), "shared", "two controllers share their memory")
    p.reset() if hasattr(p, "reset") else None
    c.outcome(round(u, 6))


def factories(c, kinds):
    k = c.pick(kinds, "parameters")
    mp = dict(car=VehicleParameters.default_car(), bike=VehicleParameters.default_bicycle(), truck=VehicleParameters.default_truck(),
              wide=VehicleParameters(vx_limits=(-12.0, 60.0), acc_limits=(-11.0, 12.5), delta_max=1.2, ddelta_max=2.4), odd=VehicleParameters(vx_limits=(-1.0, 4.0), acc_limits=(-2.0, 1.0), delta_max=0.4, ddelta_max=0.3))[k]
    way = c.pick(["params", "controller"], "way")
    a = SpeedController(SpeedControllerParam.from_vehicle_params(mp)) if way == "params" else SpeedController.from_vehicle_params(mp)
    s = SteerController(SteerControllerParam.from_vehicle_params(mp)) if way == "params" else SteerController.from_vehicle_params(mp)
    c.step()
    c.compared(8)
    for r in (a, s):
        r.update_measurement(0.0)
    what = lambda: f"{k} {way}"
    for sign in (1, -1):
        a.update_measurement(-1e6 * sign), s.update_measurement(-1e6 * sign)
        c.check(a.get_control(0.0) == (mp.acc_limits[1] if sign > 0 else mp.acc_limits[0]), "acc-limit", what)
        c.check(s.get_control(0.0) == sign * mp.ddelta_max, "rate-limit", what)
        # the reference saturates: measuring the limit leaves no error
        a2, s2 = SpeedController.from_vehicle_params(mp), SteerController.from_vehicle_params(mp)
        v = mp.vx_limits[1] if sign > 0 else mp.vx_limits[0]
        a2.update_reference(1e6 * sign), a2.update_measurement(v), s2.update_reference(1e6 * sign), s2.update_measurement(sign * mp.delta_max)
        c.check(abs(a2.get_control(0.0)) < 1e-9 and abs(s2.get_control(0.0)) < 1e-9, "setpoint", what)
    c.check(SteerController().get_control(1.0) == 0 and SpeedController().get_control(1.0) == 0, "default", what)
    c.state((k, way))
    c.outcome(k)


def refused(c):
    """limits that are not intervals"""
    which = c.pick(["antiwindup", "setpoint_minmax", "output_minmax"], "limit")
    bad = c.pick([(1, 1), (2, -2)], "value")
    try:
        PIDParam(kP=1, kI=0, kD=0, **{which: bad})
        ok = True
    except (AssertionError, ValueError):
        ok = False
    c.step()
    c.compared()
    c.check(not ok, "refused", f"{which}={bad} was accepted")
    c.state((which, bad))
    c.outcome(ok)


def loop(c, kinds, speeds, refs, angles, steers, switches, dt):
    """tracking speed and steering angle at once"""
    kind = c.pick(kinds, "model")
    K = KINDS[kind]
    v0, d0 = c.pick(speeds, "speed"), c.pick(steers, "steering")
    m = K.model(0.0, 0.0, 0.3, vx=v0, delta=d0)
    prm = m.model_params
    a, s = SpeedController.from_vehicle_params(prm), SteerController.from_vehicle_params(prm)
    t = wound = 0.0
    lo, hi = prm.acc_limits
    for j in range(switches):
        vr, dr = c.pick(refs, f"speed ref{j}"), c.pick(angles, f"steering ref{j}")
        a.update_reference(vr), s.update_reference(dr)
        x = asdict(m.get_state())
        ve, de = clip(vr, *prm.vx_limits), clip(dr, -prm.delta_max, prm.delta_max)
        # time to get there at the actuators' limits, plus settling
        T = abs(ve - x["vx"]) / min(-lo, hi) + abs(de - x["delta"]) / prm.ddelta_max + 4.0
        n = int(T / dt)
        for i in range(n):
            x = asdict(m.get_state())
            wound += abs(ve - x["vx"]) * dt
            a.update_measurement(x["vx"]), s.update_measurement(x["delta"])
            m.update(K.cmd(acc=a.get_control(t), ddelta=s.get_control(t)), dt)
            t += dt
        x = asdict(m.get_state())
        c.step(n)
        c.compared(2)
        # what the integral has gathered on the way (at most its limit) has to be outweighed by the proportional part
        slack = min(SpeedControllerParam.kI * wound, SpeedControllerParam.antiwindup[1]) / SpeedControllerParam.kP
        c.check(abs(x["vx"] - ve) < 0.1 + slack, "tracking-speed", lambda: f"{kind}: {x['vx']} {T} s after the reference became {vr}")
        c.check(abs(x["delta"] - de) < 0.05, "tracking-steering", lambda: f"{kind}: {x['delta']} {T} s after the reference became {dr}")
        c.state((kind, round(x["vx"], 3), round(x["delta"], 3)))
    c.outcome((vr, dr))


SIG = [(0.0, 1.0), (0.25, 0.25), (0.4, None), (1.7, 1.0), (None, -3.0), (-0.3, 0.25)]
HARNESSES = [
    dict(name="history", body=history, space="gains x limits x all histories of measurements, references and request times",
         quick=dict(gains=list(GAINS), limits=list(LIMITS), signals=SIG, dts=[0.1, 0.5, 0.0], depth=3, t0s=[0.0, 2.5]),
         thorough=dict(gains=list(GAINS), limits=list(LIMITS), signals=SIG, dts=[0.1, 0.5, 0.0], depth=4, t0s=[0.0, 2.5])),
    dict(name="gaps", body=history, space="as history, with long pauses between requests",
         quick=dict(gains=list(GAINS), limits=list(LIMITS), signals=SIG[:4], dts=[1.5, 12.0, 0.01], depth=3, t0s=[0.0]),
         thorough=dict(gains=list(GAINS), limits=list(LIMITS), signals=SIG, dts=[1.5, 12.0, 0.01, 100.0], depth=3, t0s=[0.0, 1e6])),
    dict(name="factories", body=factories, space="vehicle parameters x construction", args=dict(kinds=["car", "bike", "truck", "odd", "wide"])),
    dict(name="refused", body=refused, space="empty intervals"),
    dict(name="loop", body=loop, space="model x initial state x all sequences of references",
         quick=dict(kinds=["car", "bicycle"], speeds=[0.0, 12.0], refs=[0.0, 5.0, 13.0], angles=[-0.2, 0.5], steers=[0.0, -0.3], switches=2, dt=0.1),
         thorough=dict(kinds=["car", "bicycle", "truck"], speeds=[0.0, 12.0], refs=[0.0, 5.0, 13.0, 100.0], angles=[-0.2, 0.0, 0.5], steers=[0.0, -0.3], switches=2, dt=0.1)),
]
