"""Independent statement of the documented equations of motion, integrated finely, for every model."""
import math

import numpy as np

from .modellib import KINDS, names

G, RHO = 9.81, 1.249512


def lim(a, lo, hi):
    return min(max(a, lo), hi)


def gate(value, rate, lo, hi):
    """no further once the limit is reached"""
    return 0.0 if (value <= lo and rate < 0) or (value >= hi and rate > 0) else rate


def accel(v, a, p):
    return gate(v, lim(a, *p.acc_limits), *p.vx_limits)


def rhs(name, model, s, u, start, collided):
    """s, u, start: dicts; start is the state at the beginning of the step (friction acts on it)"""
    g, p = model.model_geometry, model.model_params
    c, sn = math.cos(s["psi"]), math.sin(s["psi"])
    two = name in ("bicycle", "bikedyn")
    out = {k: 0.0 for k in s}
    if collided and name not in ("car", "cardyn", "dynobs"):
        u = {k: 0.0 for k in u}
    if name in ("car", "truck", "bicycle", "cardyn", "truckdyn", "bikedyn"):
        L = g.lf + g.lr
        acc = accel(s["vx"], u["acc"], p)
        out["delta"] = gate(s["delta"], lim(u["ddelta"], -p.ddelta_max, p.ddelta_max), -p.delta_max, p.delta_max)
        mu = (3.0 if two else 1.0) if collided and name.endswith("dyn") else 0.0
        if name.endswith("dyn") and s["vx"] >= 0.1:
            vx, vy, w, d = s["vx"], s["vy"], s["dpsi"], s["delta"]
            n1 = g.m * (G * g.lr - g.h_cog * acc) / L  # vertical loads
            n2 = g.m * (G * g.lf + g.h_cog * acc) / L
            f, r = (0.6, 0.4) if acc <= 0 else (0.5, 0.5)
            a1 = math.atan((math.cos(d) * (vy + g.lf * w) - math.sin(d) * vx)
                           / (math.cos(d) * vx + math.sin(d) * (vy + g.lf * w)))
            a2 = math.atan((vy - g.lr * w) / vx)
            mu1, mu2 = model.pacejka_front.evaluate(a1), model.pacejka_rear.evaluate(a2)
            y1, y2 = -mu1 * n1, -mu2 * n2
            x1 = (f * g.m * acc - g.c_rr_f * n1) * math.sqrt(max(0.0, 1 - (mu1 / model.pacejka_front.D) ** 2))
            x2 = (r * g.m * acc - g.c_rr_r * n2) * math.sqrt(max(0.0, 1 - (mu2 / model.pacejka_rear.D) ** 2))
            fx = math.cos(d) * x1 - math.sin(d) * y1
            fy = math.sin(d) * x1 + math.cos(d) * y1
            drag = 0.5 * RHO * g.c_drag * g.a_drag * vx * vx
            out.update(x=vx * c - vy * sn, y=vx * sn + vy * c, psi=w, vx=(fx + x2 - drag) / g.m + w * vy,
                       vy=(fy + y2) / g.m - w * vx, dpsi=(fy * g.lf - y2 * g.lr) / g.Iz)
        else:
            w = s["vx"] * math.tan(s["delta"]) / L
            vy = w * g.lr
            out.update(x=s["vx"] * c - vy * sn, y=s["vx"] * sn + vy * c, psi=w, vx=acc)
        if mu:
            out["vx"] -= mu * start["vx"]
            out["vy"] -= mu * start["vy"]
            out["dpsi"] -= mu * start["dpsi"]
    elif name == "pedestrian":
        mu = 2.0 if collided else 0.0
        out.update(x=s["vx"] * c - s["vy"] * sn, y=s["vx"] * sn + s["vy"] * c, psi=lim(u["dpsi"], -p.dtheta_max, p.dtheta_max),
                   vx=accel(s["vx"], u["acc"], p) - mu * start["vx"], vy=-mu * start["vy"], dpsi=-mu * start["dpsi"])
    elif name == "diffdrive":
        l, r = (lim(u[k], *p.omega_limits) for k in ("omega_l", "omega_r"))
        out.update(x=c * (l + r) / 2 * g.wheelradius, y=sn * (l + r) / 2 * g.wheelradius,
                   psi=(r - l) / g.wheelbase * g.wheelradius)
    elif name == "spacecraft":
        l, r = (lim(u[k], *p.acc_limits) for k in ("acc_left", "acc_right"))
        out.update(x=s["vx"] * c - s["vy"] * sn, y=s["vx"] * sn + s["vy"] * c, psi=s["dpsi"],
                   vx=l + r + s["vy"] * s["dpsi"], vy=-s["vx"] * s["dpsi"],
                   dpsi=gate(s["dpsi"], g.w_half * g.m / g.Iz * (r - l), *p.dpsi_limits))
    elif name == "rocket":
        fl, fr = (lim(u[k], *p.F_limits) for k in ("F_left", "F_right"))
        if s["m"] <= p.m_v:
            fl = fr = 0.0
        psi, phi, m = s["psi"], s["phi"], s["m"]
        out.update(x=s["vx"], y=s["vy"], psi=s["dpsi"],
                   vx=(math.sin(phi + psi) * fl + math.sin(phi - psi) * fr) / m,
                   vy=(-math.cos(phi + psi) * fl + math.cos(phi - psi) * fr) / m,
                   dpsi=g.l_m * math.cos(phi) * (fr - fl) / g.Iz,
                   phi=gate(phi, lim(u["dphi"], *p.ddelta_limits), *p.delta_limits), m=-p.C_T * (fl + fr))
    elif name == "spaceship":
        f = lim(u["thrust"], *p.thrust_limits) if s["m"] > p.m_v else 0.0
        d, m = s["delta"], s["m"]
        out.update(x=s["vx"] * c - s["vy"] * sn, y=s["vx"] * sn + s["vy"] * c, psi=s["dpsi"],
                   vx=math.cos(d) * f / m + s["dpsi"] * s["vy"], vy=math.sin(d) * f / m - s["dpsi"] * s["vx"],
                   dpsi=-g.l_r * math.sin(d) * f / g.Iz,
                   delta=gate(d, lim(u["ddelta"], *p.ddelta_limits), *p.delta_limits), m=-p.C_T * abs(f))
    elif name == "dynobs":
        out.update(x=s["vx"] * c - s["vy"] * sn, y=s["vx"] * sn + s["vy"] * c, psi=s["dpsi"],
                   vx=accel(s["vx"], u["acc_x"] + s["dpsi"] * s["vy"], p),
                   vy=accel(s["vy"], u["acc_y"] - s["dpsi"] * s["vx"], p),
                   dpsi=gate(s["dpsi"], lim(u["acc_psi"], *p.ddpsi_limits), *p.dpsi_limits))
    else:
        raise KeyError(name)
    return out


def integrate(name, model, s, u, dt, collided=False, n=60):
    s = dict(s)
    start = dict(s)
    keys = list(s)
    h = dt / n

    def f(v):
        r = rhs(name, model, dict(zip(keys, v)), u, start, collided)
        return np.array([r[k] for k in keys])

    v = np.array([s[k] for k in keys], float)
    for _ in range(n):
        k1 = f(v)
        k2 = f(v + h / 2 * k1)
        k3 = f(v + h / 2 * k2)
        k4 = f(v + h * k3)
        v = v + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
    return dict(zip(keys, v))


def asdict(state):
    return {k: float(getattr(state, k)) for k in names(state)}


def cmd_limits(name, model):
    """documented actuation limits of every command"""
    p = model.model_params
    if name in ("car", "truck", "bicycle", "cardyn", "truckdyn", "bikedyn"):
        return dict(acc=p.acc_limits, ddelta=(-p.ddelta_max, p.ddelta_max))
    return {
        "pedestrian": lambda: dict(acc=p.acc_limits, dpsi=(-p.dtheta_max, p.dtheta_max)),
        "diffdrive": lambda: dict(omega_l=p.omega_limits, omega_r=p.omega_limits),
        "spacecraft": lambda: dict(acc_left=p.acc_limits, acc_right=p.acc_limits),
        "rocket": lambda: dict(F_left=p.F_limits, F_right=p.F_limits, dphi=p.ddelta_limits),
        "spaceship": lambda: dict(thrust=p.thrust_limits, ddelta=p.ddelta_limits),
        "dynobs": lambda: dict(acc_x=p.acc_limits, acc_y=p.acc_limits, acc_psi=p.ddpsi_limits),
    }[name]()


def state_limits(name, model):
    """documented limits of state components that the actuation may not push further"""
    p = model.model_params
    v = lambda d: dict(vx=p.vx_limits, delta=(-p.delta_max, p.delta_max)) if d else dict(delta=(-p.delta_max, p.delta_max))
    if name in ("car", "truck", "bicycle"):
        return v(True)
    if name.endswith("dyn"):
        return v(False)
    return {
        "pedestrian": lambda: dict(vx=p.vx_limits), "diffdrive": lambda: {}, "spacecraft": lambda: dict(dpsi=p.dpsi_limits),
        "rocket": lambda: dict(phi=p.delta_limits), "spaceship": lambda: dict(delta=p.delta_limits),
        "dynobs": lambda: dict(vx=p.vx_limits, vy=p.vx_limits, dpsi=p.dpsi_limits),
    }[name]()
