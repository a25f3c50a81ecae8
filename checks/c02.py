"""C02 - a simulation ends exactly when the documented conditions say so; finished players leave."""
from decimal import Decimal as D

from dg_commons.sim.simulator_structures import SimParameters

from .simlib import INF, Cfg, TGoal, reference, run_real

ASSUMPTIONS = ["toy models on a line, equal diamond footprints; footprints never merely touch in the alphabet"]


def verdict(c, cfg, ref, ctx, rec):
    steps = {n: sum(1 for e in rec if e[0] == "update" and e[1] == n) for n in cfg.names}
    c.check(ctx.sim_terminated is True, "terminated-flag", "run returned but the context is not marked as terminated")
    c.check(ctx.time == ref["t"], "end-time",
            f"ended at {ctx.time}, expected {ref['t']} because of {ref['reason']} (first collision {ref['first']})")
    c.check([str(p) for p in ctx.players] == [n for n in cfg.names if n in ref["active"]], "remaining-players",
            f"players left {list(ctx.players)}, expected {ref['active']}")
    for n in cfg.names:
        c.check(steps[n] == len(ref["logs"][n].updates), "steps-per-player",
                f"{n} was stepped {steps[n]} times, expected {len(ref['logs'][n].updates)}")
    c.check(ctx.first_collision_ts == ref["first"], "first-collision",
            f"first collision at {ctx.first_collision_ts}, expected {ref['first']}")
    got = sorted((r.at_time, tuple(sorted(str(p) for p in r.players))) for r in ctx.collision_reports)
    want = sorted((t, tuple(sorted((a, b)))) for t, a, b in ref["reports"])
    c.check(got == want, "reports", f"collision reports {got}, expected {want}")
    c.check(set(ctx.models) == set(cfg.names), "models-kept", f"models left {list(ctx.models)}")
    c.check(set(ctx.log) == set(cfg.names), "logs-kept", f"logs for {list(ctx.log)}")
    for n in cfg.names:
        st = ctx.log[n].states
        w = [t for t, _ in ref["logs"][n].states]
        c.check(list(st.timestamps) == w, "logged-states", f"{n}: {list(map(str, st.timestamps))} expected {w}")
    c.compared(6 + 2 * len(cfg.names))
    c.step(ref["steps"])
    c.state((ref["t"], tuple(ref["active"]), ref["first"], tuple(want)))
    c.outcome(ref["reason"])
    for r in ref["reason"]:
        c.count("ended_by_" + r)


def body(c, dts, horizons, afters, speeds, gaps, goal_menu, third, obstacle_gaps):
    dt = c.pick(dts, "dt")
    names = ["A", "B"]
    x0 = {"A": 0.0, "B": 3.3 + c.pick(gaps, "gap")}
    va, vb = c.pick(speeds, "vA"), c.pick(speeds, "vB")
    v = {"A": va, "B": -vb}
    if c.pick(third, "third_player"):
        names.append("C")
        x0["C"], v["C"] = -40.0, 3.0
    ob = c.pick(obstacle_gaps, "obstacle")
    horizon = c.pick(horizons, "max_time/dt")
    after = c.pick(afters, "after/dt")
    goals = {}
    for p in names:
        g = c.pick(goal_menu, f"goal_{p}")
        if g is None:
            continue
        if g[0] == "t":
            goals[p] = TGoal(t=dt * g[1])
        else:
            sgn = 1 if v[p] >= 0 else -1
            goals[p] = TGoal(x=x0[p] + sgn * abs(v[p]) * float(dt) * (g[1] - 0.5), sgn=sgn)
    cfg = Cfg(names=names, x0=x0, policy={p: (lambda k, p=p: v[p]) for p in names},
              param=SimParameters(dt=dt, dt_commands=2 * dt, max_sim_time=dt * horizon,
                                  sim_time_after_collision=dt * after),
              goals=goals, obstacles=() if ob is None else (-40.0 - ob, -20.1 + ob))
    ref = reference(cfg)
    ctx, rec = run_real(cfg, sensors=False)
    verdict(c, cfg, ref, ctx, rec)


G1 = [None, ("t", D(2)), ("t", D("4.5")), ("x", 3), ("t", D(0))]
HARNESSES = [
    dict(name="two_bodies", body=body,
         space="dt x gap x speeds x max time x time after collision x goal of every player (none/time/position)",
         quick=dict(dts=[D("0.1"), D("0.05")], horizons=[D(0), D(3), D("5.5"), D(9)], afters=[D(0), D(1), D("2.5")],
                    speeds=[0.0, 2.5, 5.0], gaps=[0.0, 1.0], goal_menu=G1, third=[0], obstacle_gaps=[None]),
         thorough=dict(dts=[D("0.1"), D("0.05"), D("0.25")],
                       horizons=[D(0), D(1), D(3), D("5.5"), D(6), D(9), D(14)],
                       afters=[D(0), D("0.5"), D(1), D("2.5"), D(4)],
                       speeds=[0.0, 2.5, 5.0], gaps=[0.0, 1.0, 2.13], goal_menu=G1 + [("x", 6), ("t", D(7))],
                       third=[0], obstacle_gaps=[None])),
    dict(name="three_bodies", body=body, space="as two_bodies with a distant third player and static obstacles",
         quick=dict(dts=[D("0.1")], horizons=[D(4), D(7)], afters=[D(0), D(2)],
                    speeds=[0.0, 5.0], gaps=[0.8], goal_menu=[None, ("t", D(3)), ("x", 2)], third=[1],
                    obstacle_gaps=[None, -3.0, 17.95]),
         thorough=dict(dts=[D("0.1"), D("0.05")], horizons=[D(0), D(4), D(7), D(12)], afters=[D(0), D("1.5"), D(2)],
                       speeds=[0.0, 2.5, 5.0], gaps=[0.0, 0.8, 1.6], goal_menu=G1[:4], third=[1],
                       obstacle_gaps=[None, -3.0, 17.95, 15.0])),
]
