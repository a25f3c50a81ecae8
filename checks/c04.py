"""C04 - a simulation's outcome depends on its own context only."""
import json
import os
import subprocess
import sys
from copy import deepcopy
from decimal import Decimal as D

from dg_commons.sim.agents.agent import Agent
from dg_commons.sim.simulator import SimContext, Simulator
from dg_commons.sim.simulator_structures import SimParameters

from mc.core import HarnessError
from mc.sched import Coop

from .simlib import Cfg, TGoal, reference, run_real
from .c03 import check_log

ASSUMPTIONS = [
    "scheduling points are the simulator's calls into agents, sensors and models; two simulations in one process",
    "re-entrancy and sequential reuse are explored completely; true parallelism is not (the GIL makes the points atomic)",
]


def cfgs(dtc, steps, same_names, obstacle=False):
    mk = lambda names, base, x, st, r: Cfg(
        names=names, x0=dict(zip(names, x)),
        policy={n: (lambda k, i=i, base=base: base * (i + 1) + 0.25 * k) for i, n in enumerate(names)},
        param=SimParameters(dt=D("0.1"), dt_commands=D("0.1") * r, max_sim_time=D("0.1") * st),
        extra={names[0]: (lambda k, base=base: ("e", base, k))},
    )
    a = mk(["A", "B"], 1.0, (0.0, 70.0), steps[0], dtc[0])
    b = mk(["A", "B"] if same_names else ["B", "C"], -3.0, (10.0, -70.0), steps[1], dtc[1])
    return a, b


def verdict(c, cfg, ctx, rec, what):
    ref = reference(cfg)
    c.check(set(ctx.log) == set(cfg.names), "log-players", f"{what}: log of {set(ctx.log)}")
    check_log(c, cfg, ref, ctx)
    for n in cfg.names:
        got = [(e[2], e[3]) for e in rec if e[0] == "update" and e[1] == n]
        want = [u[0] for u in ref["logs"][n].updates]
        c.check(got == want, "applied-commands", f"{what}: {n} applied {got}, alone it applies {want}")
        got = [(e[2], set(e[3])) for e in rec if e[0] == "obs" and e[1] == n]
        want = [(t, set(s)) for t, s in ref["logs"][n].obs]
        c.check(got == want, "observations", f"{what}: {n} observed {got}, alone it observes {want}")
    c.check(ctx.time == ref["t"], "end", f"{what}: ended at {ctx.time}, alone at {ref['t']}")
    c.check(len(ctx.collision_reports) == len(ref["reports"]), "reports", f"{what}: {ctx.collision_reports}")


def interleaved(c, shapes):
    """two `run` calls interleaved at every call-out, up to the preemption bound"""
    dtc, steps, same = c.pick(shapes, "shape")
    a, b = cfgs(dtc, steps, same)
    coop = Coop(c)
    out = {}
    for name, cfg in (("sim1", a), ("sim2", b)):
        coop.spawn(name, lambda cfg=cfg, name=name: out.__setitem__(name, run_real(cfg, hook=coop.point)))
    coop.run()
    for name, cfg in (("sim1", a), ("sim2", b)):
        verdict(c, cfg, *out[name], what=f"{name} interleaved as {''.join(s[-1] for s in coop.schedule)}")
    c.state(tuple(coop.schedule))
    c.outcome(tuple(sorted((k, v[0].time) for k, v in out.items())))


def nested(c):
    """a complete second simulation inside any call-out of the first one"""
    a, b = cfgs(c.pick([(2, 1), (2, 3), (3, 2)], "ratios"), (4, 3), c.flag("same_names"))
    at = c.choose(40, "callout")
    kind = c.pick(["fresh", "class"], "simulator")
    calls = [0]
    inner = []

    def hook(*_):
        calls[0] += 1
        if calls[0] == at + 1:
            inner.append(run_real(b, sim=Simulator()))

    ctx, rec = run_real(a, hook=hook)
    verdict(c, a, ctx, rec, f"outer, inner run at call-out {at}")
    for i in inner:
        verdict(c, b, *i, what=f"inner run at call-out {at}")
    c.step(calls[0])
    c.state((at, len(inner), kind))
    c.outcome(len(inner))


def reused(c):
    """sequences of runs on one Simulator object; every run must be what a new Simulator gives"""
    menu = [
        cfgs((2, 1), (5, 3), True)[0],
        cfgs((3, 2), (4, 3), True)[1],
        cfgs((2, 3), (4, 7), False)[1],
        Cfg(names=["A"], x0={"A": 0.0}, policy={"A": lambda k: 4.0}, t0=D("0.35"),
            param=SimParameters(dt=D("0.1"), dt_commands=D("0.2"), max_sim_time=D("1"))),
        Cfg(names=["A", "B"], x0={"A": 0.0, "B": 3.3}, policy={"A": lambda k: 5.0, "B": lambda k: -5.0},
            param=SimParameters(dt=D("0.1"), dt_commands=D("0.2"), max_sim_time=D("1"))),
    ]
    sim = Simulator()
    n = 2 + c.choose(2, "runs")
    done = []
    for i in range(n):
        k = c.choose(len(menu), f"run{i}")
        ctx, rec = run_real(menu[k], sim=sim, sensors=c.flag("sensors") if i == 0 else True)
        done.append((menu[k], ctx, rec))
        verdict(c, menu[k], ctx, rec, f"run {i} ({k}) of a reused simulator")
        c.step()
    # earlier results are not touched by later runs
    for i, (cfg, ctx, rec) in enumerate(done):
        verdict(c, cfg, ctx, rec, f"log of run {i} after later runs")
    c.state([d[0].names for d in done])
    c.outcome([d[1].time for d in done])


CHILD = r"""
import sys, json, logging
sys.path.insert(0, %r)
import dg_commons, dg_commons.sim
from mc import core
core.quiet()
from checks.c04 import lf_world
print("RESULT" + json.dumps(lf_world(%d)))
"""


class Swayed(Agent):
    """does something that depends on everything it is told, and on a common source of random numbers"""

    def __init__(self, name, rng):
        self.name, self.rng = name, rng

    def on_episode_init(self, init_sim_obs):
        self.rng.seed(init_sim_obs.seed)

    def get_commands(self, sim_obs):
        from dg_commons.sim.models.vehicle import VehicleCommands

        s = sum((k + 1) * o.state.x * o.state.vx for k, o in enumerate(sim_obs.players.values()))
        return VehicleCommands(acc=0.5 + 0.01 * s + self.rng.random(), ddelta=0.1 * (float(sim_obs.time) % 1))


def lf_world(kind):
    """a small world with the library's own agents; returns a digest of everything logged"""
    from decimal import Decimal as D
    import numpy as np
    from dg_commons import SE2Transform
    from dg_commons.maps.lanes import DgLanelet, LaneCtrPoint
    from dg_commons.sim.agents.agent import NPAgent
    from dg_commons.sim.agents.lane_follower import LFAgent
    from dg_commons.sim.models.vehicle import VehicleCommands, VehicleModel, VehicleState
    from dg_commons.sim.models.vehicle_dynamic import VehicleModelDyn, VehicleStateDyn
    from dg_commons.sim.models.vehicle_structures import VehicleGeometry
    from dg_commons.sim.models.vehicle_utils import VehicleParameters
    from dg_commons.sim.scenarios.structures import DgScenario
    from dg_commons import DgSampledSequence

    lane = DgLanelet([LaneCtrPoint(SE2Transform([x, 0.02 * x * x], np.arctan(0.04 * x)), 2.0) for x in (0, 10, 20, 40)])
    models = {"ego": VehicleModel.default_car(VehicleState(x=1, y=0.5, psi=0.1, vx=3, delta=0))}
    players = {"ego": LFAgent(lane, VehicleParameters.default_car(), VehicleGeometry.default_car())}
    if kind >= 1:
        models["np"] = VehicleModel.default_truck(VehicleState(x=25, y=10, psi=0.5, vx=2, delta=0.1))
        players["np"] = NPAgent(DgSampledSequence[VehicleCommands](
            [D(0), D(1)], [VehicleCommands(acc=1, ddelta=0.1), VehicleCommands(acc=-1, ddelta=-0.1)]))
    if kind >= 2:
        models["dyn"] = VehicleModelDyn.default_car(VehicleStateDyn(x=8, y=0.5, psi=3.0, vx=4, vy=0, dpsi=0, delta=0))
        players["dyn"] = LFAgent(lane, VehicleParameters.default_car(), VehicleGeometry.default_car())
    sensors = {}
    if kind >= 3:
        # a pile-up of four; late and restricted observations; one source of random numbers for all of them
        import random
        from dg_commons.perception.sensor import FullRangeSensor
        from dg_commons.sim.sim_perception import DelayedObsFilter, FovObsFilter, GhostObsFilter, IdObsFilter

        from .vislib import install

        install()
        rng = random.Random(5)
        models, players = {}, {}
        for i, n in enumerate(["ego", "np", "dyn", "other"]):
            th = 0.3 + i * np.pi / 2 + (kind - 3) * 0.4
            models[n] = VehicleModel.default_car(
                VehicleState(x=9 * np.cos(th), y=9 * np.sin(th), psi=th + np.pi + 0.1 * i, vx=4.0 + 0.5 * i, delta=0.0))
            players[n] = Swayed(n, rng)
            inner = [IdObsFilter(), GhostObsFilter(IdObsFilter(), "dyn", 6.0), FovObsFilter(FullRangeSensor()),
                     IdObsFilter()][i]
            sensors[n] = DelayedObsFilter(inner, D("0.4"))
    ctx = SimContext(dg_scenario=DgScenario(), models=models, players=players, **(dict(sensors=sensors) if sensors else {}),
                     param=SimParameters(dt=D("0.1"), dt_commands=D("0.2"), max_sim_time=D(3),
                                         sim_time_after_collision=D(1)), seed=3)
    Simulator().run(ctx)
    out = {}
    for n in sorted(models):
        log = ctx.log[n]
        out[n] = [
            [[str(t), [repr(float(z)) for z in s.as_ndarray()]] for t, s in log.states],
            [[str(t), [repr(float(z)) for z in u.as_ndarray()], str(u.lights)] for t, u in log.commands],
        ]
    out["_reports"] = [[str(r.at_time), list(map(str, r.players)),
                        {str(p): v and [repr(v.velocity), repr(v.velocity_after), v.at_fault] for p, v in r.players.items()}]
                       for r in ctx.collision_reports]
    return out


_ALONE: dict = {}


def child(kind, hs):
    """the world in a process of its own"""
    verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    env = dict(os.environ, PYTHONHASHSEED=str(hs))
    p = subprocess.run([sys.executable, "-c", CHILD % (verif, kind)], env=env, capture_output=True, text=True,
                       timeout=140)
    res = [l for l in p.stdout.splitlines() if l.startswith("RESULT")]
    return json.loads(res[0][6:]) if res else p.stderr[-1500:]


def alone(c, kind):
    if kind not in _ALONE:
        _ALONE[kind] = child(kind, 0)
    c.check(isinstance(_ALONE[kind], dict), "world-runs", lambda: f"world {kind} failed: {_ALONE[kind]}")
    return _ALONE[kind]


def same_world(c, got, want, what):
    for n in want:
        if got[n] != want[n]:
            d = next((g, w) for G, W in zip(got[n], want[n]) for g, w in zip(G, W) if g != w) if n[0] != "_" else \
                (got[n], want[n])
            c.fail("process-dependent", f"player {n}: {what} gives {d[0]}, alone {d[1]}")
    k = sum(len(v[0]) for k, v in want.items() if k[0] != "_")
    c.compared(k)
    c.step(k)
    c.count("collisions", len(want["_reports"]))


def hash_seeds(c, seeds, kinds):
    """the same world in processes with different hash seeds"""
    kind = c.pick(kinds, "world")
    hs = c.pick(seeds, "PYTHONHASHSEED")
    got = child(kind, hs)
    c.check(isinstance(got, dict), "world-runs", lambda: f"world {kind} failed with PYTHONHASHSEED={hs}: {got}")
    same_world(c, got, alone(c, kind), f"hash seed {hs}")
    c.state((kind, hs))
    c.outcome(json.dumps(got)[:500])


def repeat(c, kinds):
    """the same context built again gives the same result; nothing of a run leaks into the next"""
    kind = c.pick(kinds, "world")
    other = c.pick([*kinds, None], "in_between")
    want = alone(c, kind)
    for i in range(2):
        if other is not None:
            lf_world(other)
        same_world(c, json.loads(json.dumps(lf_world(kind))), want, f"run {i} in this process (after world {other})")
    c.state((kind, other))
    c.outcome(repr(want))


S1 = [((2, 1), (2, 1), True), ((1, 2), (1, 2), False)]
S2 = S1 + [((2, 2), (3, 2), True), ((3, 1), (4, 1), False)]
HARNESSES = [
    dict(name="interleaved", body=interleaved, space="two simulations x all switches at call-outs, preemption bounded",
         quick=dict(shapes=S1, dev_bound=3), thorough=dict(shapes=S2, dev_bound=4),
         bounds="preemptions: 3 quick, 4 thorough"),
    dict(name="nested", body=nested, space="a second simulation inside any of the call-outs of the first"),
    dict(name="reused", body=reused, space="all sequences of 2-3 runs of 5 contexts on one simulator"),
    dict(name="repeat", body=repeat, space="library agents; same context twice, another run before each",
         quick=dict(kinds=[0, 2, 3, 4]), thorough=dict(kinds=[0, 1, 2, 3, 4])),
    dict(name="hash_seeds", body=hash_seeds, space="library agents x PYTHONHASHSEED",
         quick=dict(seeds=[1, 2, 3], kinds=[2, 3]), thorough=dict(seeds=list(range(1, 16)), kinds=[0, 1, 2, 3])),
]
