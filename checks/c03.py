"""C03 - the log is a faithful record of the run."""
from copy import deepcopy
from dataclasses import replace
from decimal import Decimal as D

from zuper_commons.types import ZValueError

from dg_commons import DgSampledSequence, UndefinedAtTime
from dg_commons.sim.simulator import SimContext, Simulator
from dg_commons.sim.simulator_structures import PlayerLog, SimLog, SimParameters

from .simlib import Cfg, TAgent, TCmd, TGoal, TState, reference, run_real

ASSUMPTIONS = ["toy models and agents; computation times in the log are only checked to be non-negative numbers"]

EXTRAS = {
    "never": None,
    "none": lambda k: None,
    "always": lambda k: ("plan", k),
    "every_other": lambda k: None if k % 2 else {"k": k},
    "falsy": lambda k: [0, "", False, ()][k % 4],
    "late": lambda k: "late" if k >= 2 else None,
}


def check_log(c, cfg, ref, ctx):
    for n in cfg.names:
        log, r = ctx.log[n], ref["logs"][n]
        c.check(list(log.states.timestamps) == [t for t, _ in r.states], "state-times",
                lambda: f"{n}: {list(map(str, log.states.timestamps))} expected {[str(t) for t, _ in r.states]}")
        for v, (t, x) in zip(log.states.values, r.states):
            c.close(v.x, x, "state-values", f"logged state of {n} at {t}")
        c.check(list(log.commands.timestamps) == [t for t, _ in r.cmds], "command-times",
                lambda: f"{n}: {list(map(str, log.commands.timestamps))} expected {[str(t) for t, _ in r.cmds]}")
        got = [(v.v, v.serial) for v in log.commands.values]
        want = [cs for _, cs in r.cmds]
        c.check(got == want, "command-values", f"{n}: logged commands {got}, applied {want}")
        got = [(t, v) for t, v in log.extra]
        c.check(got == r.extra, "extras", f"{n}: logged extras {got}, returned {r.extra}")
        c.check(list(log.info.timestamps) == [t for t, _ in r.cmds], "info-times",
                f"{n}: info at {log.info.timestamps}")
        c.check(all(isinstance(v, float) and v >= 0 for v in log.info.values), "info", f"{log.info.values}")
        c.compared(3)


def interp(samples, t):
    if t <= samples[0][0]:
        return samples[0][1]
    if t >= samples[-1][0]:
        return samples[-1][1]
    for (t0, x0), (t1, x1) in zip(samples, samples[1:]):
        if t0 <= t <= t1:
            return x0 + (x1 - x0) * float(t - t0) / float(t1 - t0)


def prev(samples, t):
    out = None
    for t0, v in samples:
        if t0 <= t:
            out = (v,)
    return out


def check_queries(c, cfg, ref, ctx, q):
    starts = [ref["logs"][n].states[0][0] for n in cfg.names]
    ends = [ref["logs"][n].states[-1][0] for n in cfg.names]
    c.check(ctx.log.get_init_time() == min(starts), "init-time", f"{ctx.log.get_init_time()}")
    c.check(ctx.log.get_last_time() == max(ends), "last-time", f"{ctx.log.get_last_time()} expected {max(ends)}")
    for t in q:
        if t < cfg.t0:
            continue
        e = ctx.log.at_interp(t)
        c.check(set(e) == set(cfg.names), "entry-players", f"{set(e)}")
        for n in cfg.names:
            r = ref["logs"][n]
            c.close(e[n].state.x, interp(r.states, t), "interp-state", f"{n} at {t}")
            w = prev(r.cmds, t)[0]
            c.check((e[n].commands.v, e[n].commands.serial) == w, "hold-commands",
                    f"{n} at {t}: {e[n].commands} expected {w}")
            w = prev(r.extra, t)
            c.check(e[n].extra == (w[0] if w else None), "hold-extra", f"{n} at {t}: {e[n].extra} expected {w}")
            c.check(isinstance(e[n].info, float), "entry-info", f"{e[n].info}")


def body(c, dtcs, horizons, goal_steps, extras, t0s, crash):
    names = ["A", "B"]
    dt = D("0.1")
    t0 = c.pick(t0s, "t0")
    cr = c.pick(crash, "crash")
    goals = {}
    for n in names:
        g = c.pick(goal_steps, f"goal_{n}")
        if g is not None:
            goals[n] = TGoal(t=t0 + dt * g)
    ex = {n: EXTRAS[c.pick(extras, f"extra_{n}")] for n in names}
    steady = c.flag("steady")  # the same command again and again, and a player that stands still
    cfg = Cfg(
        names=names,
        x0={"A": 0.0, "B": 3.75 if cr else 80.0},
        policy={"A": lambda k: 4.0, "B": lambda k: 0.0} if steady else
        {"A": lambda k: 1.0 + 0.5 * k, "B": lambda k: -2.0 - 0.25 * k},
        param=SimParameters(dt=dt, dt_commands=dt * c.pick(dtcs, "ratio"),
                            max_sim_time=t0 + dt * c.pick(horizons, "max"), sim_time_after_collision=dt * 2),
        goals=goals,
        extra={n: e for n, e in ex.items() if e},
        t0=t0,
    )
    ref = reference(cfg)
    ctx, rec = run_real(cfg, sensors=False)
    check_log(c, cfg, ref, ctx)
    q = [t0 + dt * D(k) / 4 for k in range(0, 4 * 9)]
    check_queries(c, cfg, ref, ctx, q)
    # later changes of the live objects do not reach the log
    for n in names:
        m = ctx.models[n]
        m.update(TCmd(1000.0, -1), D(1))
        m.set_state(TState(12345.0))
    check_log(c, cfg, ref, ctx)
    c.step(ref["steps"])
    for n in names:
        for t, x in ref["logs"][n].states:
            c.state((n, t, x))
    c.outcome([len(ctx.log[n].extra) for n in names])


def aliasing(c, k_max):
    """agents that keep and reuse what they return or what they were given"""
    names = ["A", "B"]
    dt = D("0.1")
    mode = {n: c.pick(["fresh", "reuse", "clear_after", "edit_obs", "edit_in_extra"], f"mode_{n}") for n in names}
    ratio = c.pick([1, 2, 3], "ratio")
    cfg = Cfg(names=names, x0={"A": 0.0, "B": 80.0},
              policy={"A": lambda k: 1.0 + 0.5 * k, "B": lambda k: -2.0 - 0.25 * k},
              param=SimParameters(dt=dt, dt_commands=dt * ratio, max_sim_time=dt * k_max), t0=D(0))
    ref = reference(cfg)

    def mutate(models, players):
        for n in names:
            store = TCmd(0.0, 0)
            issued = []

            def pol(k, obs, n=n, store=store, issued=issued):
                if mode[n] == "edit_obs":
                    obs.players[n].state.x = -777.0
                if mode[n] == "clear_after" and issued:
                    issued[-1].v, issued[-1].serial = 555.0, -5
                if mode[n] in ("reuse",):
                    store.v, store.serial = cfg.policy[n](k), k
                    return store
                cmd = TCmd(cfg.policy[n](k), k)
                issued.append(cmd)
                return cmd

            players[n].policy = pol
            if mode[n] == "edit_in_extra":
                def extra(k, issued=issued):
                    return ("x", k)
                players[n].extra = extra
                cfg.extra[n] = extra

    ctx, rec = run_real(cfg, sensors=False, mutate=mutate)
    ref = reference(cfg)
    check_log(c, cfg, ref, ctx)
    applied = {n: [(e[2], e[3]) for e in rec if e[0] == "update" and e[1] == n] for n in names}
    for n in names:
        want = [u[0] for u in ref["logs"][n].updates]
        c.check(applied[n] == want, "applied", f"{n} ({mode[n]}): applied {applied[n]}, expected {want}")
    c.step(ref["steps"])
    c.state((mode["A"], mode["B"], ratio))
    c.outcome(tuple(sorted(mode.values())))


def combined(c, n, starts, lens, offs):
    """logs of several runs put together: their players begin and end at different instants"""
    log, ref = SimLog(), {}
    names = [f"P{i}" for i in range(c.pick(n, "players"))]
    for i, p in enumerate(names):
        t0, k, coff = c.pick(starts, f"start {p}"), c.pick(lens, f"length {p}"), c.pick(offs, f"offset {p}")
        ts = [t0 + j * D("0.5") for j in range(k)]
        st = [(t, TState(x=float(i + j * j))) for j, t in enumerate(ts)]
        cm = [(t, TCmd(v=float(j), serial=j)) for j, t in enumerate(ts)][::2]
        ex = [(t, ("e", j)) for j, t in enumerate(ts)][coff:]
        nf = [(t, 0.25 * j) for j, t in enumerate(ts)][::2]
        ref[p] = st, cm, ex, nf
        log[p] = PlayerLog(*[DgSampledSequence([t for t, _ in s], [v for _, v in s]) for s in (st, cm, ex, nf)])
    what = lambda: str({p: [str(t) for t, _ in r[0]] for p, r in ref.items()})
    first, last = min(r[0][0][0] for r in ref.values()), max(r[0][-1][0] for r in ref.values())
    c.check(log.get_init_time() == first, "init-time", lambda: f"{log.get_init_time()} for {what()}")
    c.check(log.get_last_time() == last, "last-time", lambda: f"{log.get_last_time()} for {what()}")
    for bad in (None, {}, ref[names[0]][0]):
        try:
            log["X"] = bad
            c.fail("entry-type", f"{bad} was accepted as the log of a player")
        except ZValueError:
            pass
    t = max(r[0][0][0] for r in ref.values())
    while t <= last + D("0.5"):
        e = log.at_interp(t)
        c.check(set(e) == set(names), "entry-players", f"{set(e)}")
        for p, (st, cm, ex, nf) in ref.items():
            c.close(e[p].state.x, interp([(t_, s.x) for t_, s in st], t), "interp-state", f"{p} at {t}")
            c.check(e[p].commands == prev(cm, t)[0], "hold-commands", lambda: f"{p} at {t}: {e[p].commands}")
            c.check(e[p].extra == (prev(ex, t) or (None,))[0], "hold-extra", lambda: f"{p} at {t}: {e[p].extra}")
            c.check(e[p].info == prev(nf, t)[0], "hold-info", lambda: f"{p} at {t}: {e[p].info}")
        c.step()
        t += D("0.25")
    c.compared(2 + 3 * len(names))
    c.state(what())
    c.outcome((len(names), first, last))


HARNESSES = [
    dict(name="combined", body=combined, space="starts, lengths and extras of the logs of several players",
         quick=dict(n=[1, 2, 3], starts=[D(0), D(1), D("2.25")], lens=[1, 4], offs=[0, 2]),
         thorough=dict(n=[1, 2, 3], starts=[D(-1), D(0), D(1), D("2.25")], lens=[1, 4, 7], offs=[0, 2])),
    dict(name="log", body=body, space="dt_commands x horizon x mission end x extras of each agent x start time x crash",
         quick=dict(dtcs=[1, D("1.5"), 2, 3], horizons=[4, 7], goal_steps=[None, 2, 5],
                    extras=["never", "none", "always", "every_other", "falsy", "late"], t0s=[D(0), D("2.5")],
                    crash=[0, 1]),
         thorough=dict(dtcs=[D("0.5"), 1, D("1.5"), 2, 3, 4, 20], horizons=[0, 1, 4, 7, 8],
                       goal_steps=[None, 1, 2, 3, 5], extras=list(EXTRAS), t0s=[D(0), D("2.5"), D(-1)], crash=[0, 1])),
    dict(name="long_log", body=body, space="a long simulation: steady or not x order of the goals",
         args=dict(dtcs=[2], horizons=[310], goal_steps=[None, 280], extras=["always"], t0s=[D(0)], crash=[0])),
    dict(name="aliasing", body=aliasing, args=dict(k_max=6), space="how each agent reuses or edits shared objects"),
]
