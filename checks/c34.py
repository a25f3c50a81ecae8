"""C34 - one step of every model integrates its documented equations of motion."""
import numpy as np

from .modellib import EVERY, MODELS, mkcmd
from .odelib import asdict, cmd_limits, integrate, rhs, state_limits

ASSUMPTIONS = ["agreement up to the accuracy of the integrator (4e-3 of the motion plus 4e-3; 5e-2 for the tyre model, 6e-2 below "
               "2 m/s, 0.15 for steps that run into a speed, angle, fuel or low-speed threshold midway)",
               "the tyre curve itself is the library's (only its shape is checked)"]
LEVELS = {"lo": lambda lo, hi: lo * 1.5 if lo < 0 else lo - 1.0, "min": lambda lo, hi: lo, "part-": lambda lo, hi: lo + 0.3 * (hi - lo),
          "zero": lambda lo, hi: 0.0, "part+": lambda lo, hi: lo + 0.8 * (hi - lo), "max": lambda lo, hi: hi,
          "hi": lambda lo, hi: 1.5 * hi if hi > 0 else hi + 1.0}


def starts(name, model0):
    """representative states: generic, at rest, fast, at every limit"""
    out = [dict(psi=0.4), dict(psi=-2.2)]
    lims = state_limits(name, model0)
    zero = {k: 0.0 for k in MODELS[name].base if k != "m"}
    out.append(dict(zero, psi=1.0))
    for k, (lo, hi) in lims.items():
        out += [dict({k: lo}, psi=0.3), dict({k: hi}, psi=0.3), dict({k: 0.5 * (lo + hi) + 0.3 * (hi - lo)}, psi=3.0)]
    if name.endswith("dyn"):
        out += [dict(vx=15.0, vy=-0.5, dpsi=-0.2, delta=-0.05, psi=0.2), dict(vx=0.05, vy=0.0, dpsi=0.0, delta=0.3, psi=0.2),
                dict(vx=-1.5, vy=0.0, dpsi=0.0, delta=-0.3, psi=0.2), dict(vx=1.0, vy=0.4, dpsi=0.5, delta=0.4, psi=-0.5),
                dict(vx=0.02, vy=0.8, dpsi=0.6, delta=0.1, psi=0.5), dict(vx=-1.2, vy=0.5, dpsi=-0.4, delta=0.2, psi=-0.5)]
    neg = {n: -0.7 * v for n, v in MODELS[name].base.items() if n in ("vy", "dpsi")}
    if neg and not name.endswith("dyn"):
        out.append(dict(neg, psi=-0.9))
    if name in ("rocket", "spaceship"):
        out += [dict(m=model0.model_params.m_v, psi=0.2), dict(m=model0.model_params.m_v + 0.5, psi=0.2, vx=-1.0, vy=2.0, dpsi=-1.0)]
    return out


def body(c, kinds, levels, dts, collided):
    k = MODELS[c.pick(kinds, "model")]
    name = k.name
    st = starts(name, k.model())
    i = c.choose(len(st), "state")
    c.values.append(f"state={st[i]}")
    m = k.model(3.0, -1.0, **st[i])
    m.has_collided = c.pick(collided, "collided")
    lim = cmd_limits(name, m)
    u = {n: LEVELS[c.pick(levels, n)](*lim[n]) for n in lim}
    dt = c.pick(dts, "dt")
    before = asdict(m.get_state())
    ref = integrate(name, m, before, u, dt, m.has_collided, n=500 if name.endswith("dyn") else 30)
    s_before = m.get_state()
    m.update(k.cmd(**u), dt)
    got = asdict(m.get_state())
    c.check(asdict(s_before) == before, "mutates", lambda: f"{name}: the previous state object was changed by the update")
    hit = any(not (lo < before[n] < hi) or not (lo + 1e-6 < ref[n] < hi - 1e-6) for n, (lo, hi) in state_limits(name, m).items())
    hit = hit or (name.endswith("dyn") and (min(before["vx"], ref["vx"], got["vx"]) < 0.5)) or (
        name in ("rocket", "spaceship") and (ref["m"] < m.model_params.m_v + 1e-9 and before["m"] > m.model_params.m_v)) or name == "dynobs"
    cat = "hit" if hit else ("slow_dyn" if before["vx"] < 2 else "dyn") if name.endswith("dyn") else "free"
    tol = TOL[cat] * (max(1.0, dt / 0.1) if hit else 1.0)
    for n in before:
        move = abs(ref[n] - before[n])
        err = abs(got[n] - ref[n])
        c.maximum(f"err_{cat}", err / (1 + move))
        c.check(err <= tol * (1 + move), f"dynamics-{n}",
                lambda: f"{name} from {before} under {u} for {dt}s collided={m.has_collided}: {n} became {got[n]}, expected {ref[n]}")
    c.compared(len(before))
    c.state((name + k.label, i, sorted(u.items()), dt, m.has_collided))
    c.outcome((name + k.label, [round(got[n], 5) for n in sorted(got)]))


def rate(c, kinds, levels, collided):
    """an almost instantaneous step: every component changes at the documented rate"""
    k = MODELS[c.pick(kinds, "model")]
    name = k.name
    st = starts(name, k.model())
    i = c.choose(len(st), "state")
    c.values.append(f"state={st[i]}")
    m = k.model(3.0, -1.0, **st[i])
    m.has_collided = c.pick(collided, "collided")
    lim = cmd_limits(name, m)
    u = {n: LEVELS[c.pick(levels, n)](*lim[n]) for n in lim}
    before = asdict(m.get_state())
    if any(abs(before[n] - b) < 1e-3 and before[n] != b for n, bb in state_limits(name, m).items() for b in bb):
        return
    want = rhs(name, m, before, u, before, m.has_collided)
    dt = 1e-6
    m.update(k.cmd(**u), dt)
    got = asdict(m.get_state())
    lims = state_limits(name, m)
    for n in before:
        r = (got[n] - before[n]) / dt
        if n in lims and want[n] == 0.0:
            # at the limit: no further, and no bouncing back
            c.check(abs(r) <= 1e-4 + 0.2 * max(abs(v) for v in lim[max(lim)] + lim[min(lim)]), f"rate-{n}",
                    lambda: f"{name} from {before} under {u}: d{n}/dt = {r} at its limit")
            continue
        c.check(abs(r - want[n]) <= (5e-4 if name.endswith("dyn") else 2e-4) * (1 + abs(want[n])), f"rate-{n}",
                lambda: f"{name} from {before} under {u} collided={m.has_collided}: d{n}/dt = {r}, expected {want[n]}")
    c.compared(len(before))
    c.state((name + k.label, i, sorted(u.items()), m.has_collided))
    c.outcome((name + k.label, [round((got[n] - before[n]) / dt, 3) for n in sorted(got)]))


def tyres(c, kinds, n):
    """the tyre curve: odd, zero at zero slip, bounded by its peak, and it reaches the peak"""
    k = MODELS[c.pick(kinds, "model")]
    name, m = k.name, k.model()
    tyre = getattr(m, c.pick(("pacejka_front", "pacejka_rear"), "tyre"))
    j = c.choose(n, "slip")
    a = 1.5 * j / n
    f, b = tyre.evaluate(a), tyre.evaluate(-a)
    c.close(f, -b, "odd", lambda: f"{name} slip {a}", tol=1e-12)
    c.check(abs(f) <= tyre.D * (1 + 1e-9), "peak", lambda: f"{name} slip {a}: {f} exceeds {tyre.D}")
    c.check(f == 0 if j == 0 else f > 0 or name == "bikedyn", "sign", lambda: f"{name} slip {a}: {f}")
    if j == 0:
        c.check(max(tyre.evaluate(0.0005 * i) for i in range(2000)) > 0.999 * tyre.D, "peak-reached", name)
        slope = (tyre.evaluate(1e-6) - tyre.evaluate(0.0)) / 1e-6
        c.check(slope > 0, "stiffness", lambda: f"{slope}")
    c.state((name + k.label, j))
    c.outcome(round(f, 9))


TOL = dict(hit=0.15, slow_dyn=0.06, dyn=0.05, free=4e-3)
ALL = EVERY
HARNESSES = [
    dict(name="step", body=body, space="model x state x commands x step x collided",
         quick=dict(kinds=ALL, levels=["lo", "part-", "zero", "part+", "hi"], dts=[0.1], collided=[False, True]),
         thorough=dict(kinds=ALL, levels=list(LEVELS), dts=[0.05, 0.1, 0.3], collided=[False, True])),
    dict(name="rate", body=rate, space="model x state x commands x collided",
         quick=dict(kinds=ALL, levels=list(LEVELS), collided=[False, True]),
         thorough=dict(kinds=ALL, levels=list(LEVELS), collided=[False, True])),
    dict(name="tyres", body=tyres, space="model x tyre x slip angle", quick=dict(kinds=["cardyn", "truckdyn", "bikedyn"], n=60),
         thorough=dict(kinds=["cardyn", "truckdyn", "bikedyn"], n=600)),
]
