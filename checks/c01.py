"""C01 - command schedule, zero-order hold, common snapshot."""
from dataclasses import replace
from decimal import Decimal as D

from dg_commons.sim.simulator import Simulator
from dg_commons.sim.simulator_structures import SimParameters

from .simlib import Cfg, TGoal, reference, run_real

ASSUMPTIONS = [
    "toy models/agents/goals owned by the harness; only the simulator loop is under test",
    "agents are compared per player; the relative order of different players inside one step is not prescribed",
]


def compare_schedule(c, cfg, ref, ctx, rec):
    for n in cfg.names:
        r = ref["logs"][n]
        inits = [e for e in rec if e[0] == "init" and e[1] == n]
        c.check(len(inits) == 1 and inits[0][2] == n and inits[0][3] == 7, "init-once",
                f"player {n} was initialised {inits}")
        mine = [e for e in rec if e[1] == n]
        c.check(mine[0][0] == "init", "init-first", f"first event of {n} is {mine[0]}")
        obs = [e for e in mine if e[0] == "obs"]
        want_t = [t for t, _ in r.obs]
        c.check([e[2] for e in obs] == want_t, "request-times",
                lambda: f"player {n} was asked at {[str(e[2]) for e in obs]}, expected {[str(t) for t in want_t]}")
        for e, (t, snap) in zip(obs, r.obs):
            c.check(set(e[3]) == set(snap), "observed-players", f"at {t} {n} observes {set(e[3])}, active {set(snap)}")
            for q, (x, y) in snap.items():
                got = e[3][q]
                c.close(got[:2], (x, y), "snapshot", f"at {t} {n} sees {q} at {got[:2]} but it was at {(x, y)}")
                c.check(got[2] is not None, "occupancy", f"no occupancy of {q}")
                c.close(got[2], (x - 1, y - 1, x + 1, y + 1), "snapshot-occupancy", f"at {t} {n} sees {q} occupancy")
        ups = [e for e in mine if e[0] == "update"]
        c.check(len(ups) == len(r.updates), "step-count",
                f"model {n} was stepped {len(ups)} times, expected {len(r.updates)}")
        for i, (e, ((v, serial), dt)) in enumerate(zip(ups, r.updates)):
            c.check((e[3], e[2]) == (serial, v), "hold",
                    f"step {i} of {n} applied command #{e[3]} (v={e[2]}), expected #{serial} (v={v})")
            c.check(e[4] == dt, "step-length", f"step {i} of {n} used dt={e[4]}")
        # zero-order hold order: a command is applied only after it was issued, the request precedes the step
        c.compared(len(obs) + len(ups))
        seq = [e[0] for e in mine if e[0] in ("obs", "update")]
        want = []
        k = 0
        for i, ((v, serial), dt) in enumerate(r.updates):
            if serial == k:
                want.append("obs")
                k += 1
            want.append("update")
        c.check(seq == want, "request-before-step", f"{n}: {seq} expected {want}")
    c.check(ctx.time == ref["t"], "clock", f"final clock {ctx.time}, expected {ref['t']}")


def body(c, dts, ratios, nmax, horizon, extra_goals):
    n = 1 + c.choose(nmax, "extra_players")
    names = ["A", "B", "C"][:n]
    dt = c.pick(dts, "dt")
    ratio = c.pick(ratios, "dt_commands/dt")
    t0 = c.pick([D(0), D("1.7")], "t0")
    param = SimParameters(dt=dt, dt_commands=dt * ratio, max_sim_time=t0 + dt * horizon,
                          sim_time_after_collision=D(0))
    goals = {}
    for p in names:
        k = c.pick(extra_goals, f"mission_{p}")
        if k is not None:
            goals[p] = TGoal(t=t0 + dt * k)
    base = {"A": 1.0, "B": -2.0, "C": 0.5}
    crash = n > 1 and c.flag("crash")
    if crash:
        param = replace(param, sim_time_after_collision=dt * horizon)
    cfg = Cfg(
        names=names,
        x0={"A": 0.0, "B": 2.0 + 5.9 * float(dt) if crash else 50.0, "C": -50.0},
        policy={p: (lambda k, p=p: base[p] + 0.125 * k) for p in names},
        param=param,
        goals=goals,
        t0=t0,
    )
    if c.flag("reversed_order"):
        cfg.names = list(reversed(names))
    ref = reference(cfg)
    ctx, rec = run_real(cfg, sensors=True)
    compare_schedule(c, cfg, ref, ctx, rec)
    sens = [(e[1], e[2]) for e in rec if e[0] == "sense"]
    want = sorted((n, t) for n in names for t, _ in ref["logs"][n].obs)
    c.check(sorted(sens) == want, "sensing", f"sensors were used {sens}, expected {want}")
    for e in rec:
        if e[0] == "sense":
            act = next(sorted(s) for t, s in ref["logs"][e[1]].obs if t == e[2])
            c.check(sorted(e[3]) == act, "sensed-players", f"sensor input {e[3]}, active {act}")
    for e in rec:
        if e[0] == "update":
            c.step()
            c.state((e[1], e[2], e[3]))
    c.count("collisions", len(ref["reports"]))
    c.outcome([(e[0], e[1]) for e in rec])


def defaults_body(c):
    """the documented defaults: 0.05 s steps, a command every 0.1 s"""
    p = SimParameters()
    c.check((p.dt, p.dt_commands, p.max_sim_time, p.sim_time_after_collision)
            == (D("0.05"), D("0.1"), D(6), D(0)), "defaults", str(p))
    n = c.pick([1, 2], "players")
    names = ["A", "B"][:n]
    cfg = Cfg(names=names, x0={"A": 0.0, "B": 90.0}, policy={q: (lambda k: 1.0 + k) for q in names}, param=p)
    ref = reference(cfg)
    ctx, rec = run_real(cfg, sensors=c.flag("explicit_sensors"))
    compare_schedule(c, cfg, ref, ctx, rec)
    c.step(ref["steps"])
    c.state(n)
    c.outcome(ref["steps"])


QD = [D("0.05"), D("0.1"), D("0.03"), D("0.015625")]
HARNESSES = [
    dict(name="schedule", body=body, space="players x dt x dt_commands/dt x start time x mission step x order",
         quick=dict(dts=QD, ratios=[D(0), D(1), D("1.5"), D(2), D("2.5"), D(3), D(4)], nmax=3, horizon=7,
                    extra_goals=[None, 1, 4]),
         thorough=dict(dts=QD + [D("0.25"), D("0.0125"), D(1)],
                       ratios=[D(0), D("0.5"), D(1), D("1.2"), D("1.5"), D(2), D("2.5"), D(3), D(4), D(5), D(20)],
                       nmax=3, horizon=13, extra_goals=[None, 1, 2, 3, 5, 8, 12])),
    dict(name="defaults", body=defaults_body, space="documented default parameters"),
]
