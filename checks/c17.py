"""C17 - actuation and state limits hold for every command, however large, along every history."""
import math

from .modellib import EVERY, MODELS
from .odelib import asdict, cmd_limits, state_limits
from .c34 import LEVELS, starts

ASSUMPTIONS = ["a limit on a speed or an angle may be overshot by half of what the actuator can do within one step (the "
               "integrator crosses it inside of a step), and never further",
               "a rate may be exceeded by a third in a step in which its limit is crossed (weights of the integrator are negative)",
               "speed limits of spacecraft, rocket and spaceship are not enforced by their (force driven) models"]


def rates(name, m):
    """largest change per second of what is actuated directly"""
    g, p = m.model_geometry, m.model_params
    a = lambda lim: max(abs(x) for x in lim)
    if name in ("car", "truck", "bicycle"):
        return dict(vx=a(p.acc_limits), delta=p.ddelta_max)
    if name.endswith("dyn"):
        return dict(delta=p.ddelta_max)
    if name == "pedestrian":
        return dict(vx=a(p.acc_limits), psi=p.dtheta_max)
    if name == "diffdrive":
        w = a(p.omega_limits) * g.wheelradius
        return dict(x=w, y=w, psi=2 * w / g.wheelbase)
    if name == "spacecraft":
        return dict(dpsi=g.w_half * g.m / g.Iz * 2 * a(p.acc_limits))
    if name == "rocket":
        F = a(p.F_limits)
        return dict(phi=a(p.ddelta_limits), vx=2 * F / p.m_v, vy=2 * F / p.m_v, dpsi=g.l_m * F / g.Iz, m=2 * p.C_T * F)
    if name == "spaceship":
        F = a(p.thrust_limits)
        return dict(delta=a(p.ddelta_limits), dpsi=g.l_r * F / g.Iz, m=p.C_T * F)
    return dict(vx=a(p.acc_limits), vy=a(p.acc_limits), dpsi=a(p.ddpsi_limits))


def most(n, r, s0, lims, dt):
    """the largest change in one step: a third more where the limit may be crossed inside of it (an explicit Runge-Kutta step has a
    negative weight of 0.32, that of a stage which may find itself on the other side)"""
    near = n in lims and not lims[n][0] + 1.4 * r * dt < s0[n] < lims[n][1] - 1.4 * r * dt
    return r * dt * (1.33 if near else 1.05) + 1e-6


def clipped(c, kinds, levels, dts):
    """commanding more than the limit is the same as commanding the limit"""
    k = MODELS[c.pick(kinds, "model")]
    name = k.name
    st = starts(name, k.model())
    i = c.choose(len(st), "state")
    lim = cmd_limits(name, k.model())
    u = {n: LEVELS[c.pick(levels, n)](*lim[n]) for n in lim}
    v = {n: min(max(u[n], lim[n][0]), lim[n][1]) for n in lim}
    if name == "dynobs" and any(u[n] != v[n] for n in ("acc_x", "acc_y")):
        return  # its limits apply to the sum of command and Coriolis term
    if u == v:
        return
    dt = c.pick(dts, "dt")
    a, b = k.model(1.0, 2.0, **st[i]), k.model(1.0, 2.0, **st[i])
    s0 = asdict(a.get_state())
    a.update(k.cmd(**u), dt), b.update(k.cmd(**v), dt)
    sa, sb = asdict(a.get_state()), asdict(b.get_state())
    dyn = name.endswith("dyn") and s0["vx"] < 5 or name == "dynobs"
    lims = state_limits(name, a)
    near = any(not lo < s0[n] < hi or not lo + 1e-3 < sb[n] < hi - 1e-3 for n, (lo, hi) in lims.items())
    for n in sa:
        tol = (0.1 if near or dyn else 2e-3) * (1 + abs(sb[n] - s0[n]))
        c.check(abs(sa[n] - sb[n]) <= tol, "clip", lambda: f"{name} from {s0}: {u} gives {n}={sa[n]}, clipped {v} gives {sb[n]}")
    c.compared(len(sa))
    c.state((name + k.label, i, sorted(u.items()), dt))
    c.outcome((name + k.label, [round(sa[n], 5) for n in sorted(sa)]))


def history(c, kinds, levels, dts, depth):
    """no history of commands leaves the limits"""
    k = MODELS[c.pick(kinds, "model")]
    name = k.name
    m0 = k.model()
    lims, rts, lim = state_limits(name, m0), rates(name, m0), cmd_limits(name, m0)
    corner = c.pick(("low", "mid", "high"), "start")
    st = {n: {"low": lo + 1e-3, "mid": (lo + hi) / 2, "high": hi - 1e-3}[corner] for n, (lo, hi) in lims.items()}
    if name.endswith("dyn"):
        st["vx"] = {"low": 1.0, "mid": 5.0, "high": 15.0}[corner]
        st.update(vy=0.0, dpsi=0.0)
    m = k.model(0.0, 0.0, 0.5, **st)
    dt = c.pick(dts, "dt")
    excess = {n: 0.0 for n in lims}
    for j in range(depth):
        s0 = asdict(m.get_state())
        u = {n: LEVELS[c.pick(levels, f"{n}{j}")](*lim[n]) for n in lim}
        m.update(k.cmd(**u), dt)
        s = asdict(m.get_state())
        c.step()
        c.compared(len(lims) + len(rts))
        c.check(all(math.isfinite(x) for x in s.values()), "finite", lambda: f"{name}: {s}")
        for n, (lo, hi) in lims.items():
            over = max(lo - s[n], s[n] - hi, 0.0)
            allowed = max(excess[n], 0.5 * rts[n] * dt) + 1e-6
            c.check(over <= allowed, "limit", lambda: f"{name}: {n}={s[n]} is outside of [{lo},{hi}] after {u} from {s0}")
            c.maximum("overshoot", over / (rts[n] * dt))
            excess[n] = over
        for n, r in rts.items():
            c.check(abs(s[n] - s0[n]) <= most(n, r, s0, lims, dt), "rate",
                    lambda: f"{name}: {n} went from {s0[n]} to {s[n]} in {dt}s, at most {r * dt} possible ({u})")
        c.state((name + k.label, corner, dt, j, [round(x, 4) for x in s.values()]))
    c.outcome((name + k.label, [round(x, 4) for x in s.values()]))


def edge(c, kinds, factors, dts):
    """exactly at a limit (or beyond it), under commands far beyond theirs: the actuators are no faster, and do not leave the limit further"""
    k = MODELS[c.pick(kinds, "model")]
    name = k.name
    m0 = k.model()
    lims, rts, lim = state_limits(name, m0), rates(name, m0), cmd_limits(name, m0)
    n = c.pick(sorted(lims) or [None], "limited")
    st = {n: lims[n][c.choose(2, "end")] + c.pick([0.0, 0.05, -0.05], "beyond") * (lims[n][1] - lims[n][0])} if n else {}
    if name.endswith("dyn") and n != "vx":
        st.update(vx=5.0, vy=0.0, dpsi=0.0)
    if name == "dynobs":  # a spinning body exchanges vx and vy, which is no actuation
        st = {**dict(vx=1.0, vy=0.0, dpsi=0.0), **st}
        if n != "dpsi":
            st["dpsi"] = 0.0
        if n in (None, "dpsi"):
            st["vx"] = 0.0
    m = k.model(0.0, 0.0, 0.5, **st)
    dt = c.pick(dts, "dt")
    s0 = asdict(m.get_state())
    mid = {q: (lo + hi) / 2 for q, (lo, hi) in lim.items()}
    u = {q: mid[q] + c.pick(factors, q) * (hi - lo) / 2 for q, (lo, hi) in lim.items()}
    m.update(k.cmd(**u), dt)
    s = asdict(m.get_state())
    c.step()
    c.compared(len(lims) + len(rts))
    for q, r in rts.items():
        c.check(abs(s[q] - s0[q]) <= most(q, r, s0, lims, dt), "rate",
                lambda: f"{name}: {q} went from {s0[q]} to {s[q]} in {dt}s, at most {r * dt} possible ({u})")
    for q, (lo, hi) in lims.items():
        if q in rts:
            over = lambda x: max(lo - x, x - hi, 0.0)
            c.check(over(s[q]) <= max(over(s0[q]), 0.5 * rts[q] * dt) + 1e-6, "limit", lambda: f"{name}: {q}={s[q]} is outside of [{lo},{hi}] after {u} from {s0}")
    c.state((name + k.label, sorted(st.items()), sorted(u.items()), dt))
    c.outcome((name + k.label, [round(x, 4) for x in s.values()]))


ALL = EVERY
TWO = [k for k in ALL if k.strip("*") not in ("dynobs", "rocket") and not k.strip("*").endswith("dyn") and k not in ("truck*", "bicycle*")]
DYN = ["cardyn", "truckdyn", "bikedyn", "cardyn*"]
HARNESSES = [
    dict(name="clipped", body=clipped, space="model x state x commands beyond the limits",
         quick=dict(kinds=ALL, levels=["lo", "part+", "hi"], dts=[0.1]),
         thorough=dict(kinds=ALL, levels=["lo", "min", "part-", "zero", "part+", "max", "hi"], dts=[0.05, 0.2])),
    dict(name="history", body=history, space="model x start x all histories of commands",
         quick=dict(kinds=TWO, levels=["lo", "zero", "hi"], dts=[0.1, 0.4], depth=3),
         thorough=dict(kinds=TWO, levels=["lo", "zero", "hi"], dts=[0.05, 0.1, 0.4], depth=4)),
    dict(name="history_dyn", body=history, space="tyre models x start x all histories of commands",
         quick=dict(kinds=DYN, levels=["lo", "zero", "hi"], dts=[0.1], depth=2),
         thorough=dict(kinds=DYN, levels=["lo", "zero", "hi"], dts=[0.05, 0.1, 0.4], depth=3)),
    dict(name="edge", body=edge, space="model x limit x end of it x far commands",
         quick=dict(kinds=ALL, factors=[-9.0, 0.0, 1.0, 12.0], dts=[0.05, 0.2]),
         thorough=dict(kinds=ALL, factors=[-9.0, -1.0, -0.5, 0.0, 0.5, 1.0, 12.0], dts=[0.02, 0.05, 0.2])),
    dict(name="history3", body=history, space="models with three inputs x start x all histories of commands",
         quick=dict(kinds=["dynobs", "rocket", "rocket*"], levels=["lo", "hi"], dts=[0.1, 0.4], depth=3),
         thorough=dict(kinds=["dynobs", "rocket", "rocket*"], levels=["lo", "hi"], dts=[0.05, 0.1, 0.4], depth=4)),
]
