"""C22 - thrust burns fuel, and only fuel: mass bookkeeping of rockets and spaceships."""
from .c34 import LEVELS
from .modellib import EVERY, MODELS
from .odelib import asdict, cmd_limits

ASSUMPTIONS = ["the tank may be overdrawn by what one step burns (the integrator crosses the empty mark inside of a step)"]
THRUST = {"rocket": ("F_left", "F_right"), "spaceship": ("thrust",)}


def history(c, kinds, masses, levels, dts, depth):
    k = MODELS[c.pick(kinds, "model")]
    name = k.name
    m = k.model(0.0, 0.0, 0.3, m=k.model().model_params.m_v + c.pick(masses, "fuel"), **{n: 0.0 for n in ("vx", "vy", "dpsi")})
    p = m.model_params
    lim = cmd_limits(name, m)
    dt = c.pick(dts, "dt")
    top = sum(max(abs(x) for x in lim[n]) for n in THRUST[name]) * p.C_T
    for j in range(depth):
        s0 = asdict(m.get_state())
        u = {n: LEVELS[c.pick(levels, f"{n}{j}")](*lim[n]) for n in THRUST[name]}
        other = [n for n in lim if n not in THRUST[name]][0]
        u[other] = LEVELS["part+"](*lim[other])
        m.update(k.cmd(**u), dt)
        s = asdict(m.get_state())
        force = sum(abs(min(max(u[n], lim[n][0]), lim[n][1])) for n in THRUST[name])
        burn = s0["m"] - s["m"]
        c.compared(3)
        c.step()
        what = lambda: f"{name} from {s0} under {u} for {dt}s: {s}"
        c.check(burn >= -1e-9, "refuels", what)
        c.check(s["m"] >= min(p.m_v, s0["m"]) - top * dt, "overdraws", what)
        if s0["m"] <= p.m_v:
            c.check(abs(burn) < 1e-9, "burns-without-fuel", what)
            v0, v1 = (s0["vx"] ** 2 + s0["vy"] ** 2) ** 0.5, (s["vx"] ** 2 + s["vy"] ** 2) ** 0.5
            c.check(abs(v1 - v0) < 1e-3 * (1 + v0) and abs(s["dpsi"] - s0["dpsi"]) < 1e-9, "thrust-without-fuel", what)
            nozzle = {"rocket": "phi", "spaceship": "delta"}[name]
            c.check(s[nozzle] != s0[nozzle] or s0[nozzle] >= p.delta_limits[1], "nozzle", what)
        elif s0["m"] - force * p.C_T * dt > p.m_v + 1e-9:
            c.check(abs(burn - force * p.C_T * dt) <= 1e-6 + 1e-3 * force * p.C_T * dt, "burn-rate", what)
            if force == 0:
                c.check(abs(s["dpsi"] - s0["dpsi"]) < 1e-9, "coasts", what)
        c.state((name + k.label, dt, j, [round(x, 5) for x in s.values()]))
    c.outcome((name + k.label, round(s["m"], 6)))


HARNESSES = [
    dict(name="rocket", body=history, space="mass x all histories of thrust",
         quick=dict(kinds=["rocket", "rocket*"], masses=[3.0, 0.0, 0.003, 0.5], levels=["lo", "part+", "hi"], dts=[0.1, 0.5], depth=3),
         thorough=dict(kinds=["rocket", "rocket*"], masses=[3.0, 0.0, 0.003, 0.5, -0.1], levels=["lo", "part+", "hi"], dts=[0.1, 0.5, 1.0], depth=4)),
    dict(name="spaceship", body=history, space="mass x all histories of thrust",
         quick=dict(kinds=["spaceship", "spaceship*"], masses=[3.0, 0.0, 0.003, 0.5], levels=["lo", "part-", "zero", "part+", "hi"], dts=[0.1, 0.5], depth=4),
         thorough=dict(kinds=["spaceship", "spaceship*"], masses=[3.0, 0.0, 0.003, 0.5, -0.1], levels=["lo", "part-", "zero", "part+", "hi"],
                       dts=[0.1, 0.5, 1.0], depth=5)),
]
