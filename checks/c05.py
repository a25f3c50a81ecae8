"""C05 - agents are isolated from the ground truth and from each other."""
import numpy as np
from commonroad.scenario.lanelet import Lanelet, LaneletNetwork
from commonroad.scenario.scenario import Scenario, ScenarioID
from decimal import Decimal as D
from shapely import affinity
from shapely.geometry import Point

from dg_commons.sim.models.obstacles import StaticObstacle
from dg_commons.sim.scenarios.structures import DgScenario
from dg_commons.sim.simulator_structures import SimParameters

from .c03 import check_log
from .simlib import DIAMOND, Cfg, TCmd, TGoal, reference, run_real

ASSUMPTIONS = ["agents edit the objects they are handed through ordinary attribute assignment and array writes"]


def small_scenario():
    sc = Scenario(0.1, ScenarioID())
    xs = np.linspace(-200, 200, 5)
    mk = lambda y: np.stack([xs, np.full(5, float(y))], axis=1)
    lan = Lanelet(mk(2), mk(0), mk(-2), 11)
    sc.add_objects(LaneletNetwork.create_from_lanelet_list([lan]))
    return sc


def scenario(kind):
    obs = [StaticObstacle(affinity.translate(DIAMOND, 300, 0)), StaticObstacle(Point(0, 300).buffer(1))]
    return DgScenario(scenario=small_scenario() if kind else None, static_obstacles=obs)


def digest(sc: DgScenario):
    out = [o.shape.wkt for o in sc.static_obstacles] + [str(o.geometry) for o in sc.static_obstacles]
    if sc.scenario:
        for l in sc.scenario.lanelet_network.lanelets:
            out.append((l.lanelet_id, l.left_vertices.tolist(), l.right_vertices.tolist(), l.center_vertices.tolist()))
    out.append([g.wkt for g in sc.strtree_obstacles.geometries])
    return out


def e_init_obstacles(o):
    o.dg_scenario.static_obstacles[0].shape = affinity.translate(DIAMOND, 0, 0)
    o.dg_scenario.static_obstacles = ()


def e_init_lanes(o):
    if o.dg_scenario.scenario:
        l = o.dg_scenario.scenario.lanelet_network.lanelets[0]
        l._left_vertices += 50.0
        l._center_vertices *= 0.0


def e_init_goal(o):
    if o.goal is not None:
        object.__setattr__(o.goal, "t", D(0))


INIT = {"none": None, "obstacles": e_init_obstacles, "lanes": e_init_lanes, "goal": e_init_goal}


def e_self(o, me):
    o.players[me].state.x = 1e6


def e_others(o, me):
    for p in o.players:
        if p != me:
            o.players[p].state.x += 1e3
            o.players[p].state.y = -1e3


def e_rebind(o, me):
    for p in o.players:
        object.__setattr__(o.players[p], "state", None)
        object.__setattr__(o.players[p], "occupancy", None)


OBS = {"none": None, "self": e_self, "others": e_others, "rebind": e_rebind}


def body(c, inits, edits, ats, nmax, kinds):
    names = ["A", "B", "C"][: c.pick(nmax, "players")]
    dt = D("0.1")
    bad = c.pick(names, "editing_agent")
    kind = c.pick(kinds, "scenario")
    init_e = c.pick(inits, "init_edit")
    obs_e = c.pick(edits, "obs_edit")
    at = c.pick(ats, "edits_from_request")
    cmd_e = c.pick(["none", "scribble"], "command_edit")
    goals = {"A": TGoal(t=dt * 5), "B": TGoal(t=dt * 4)} if c.flag("missions") else {}
    cfg = Cfg(names=names, x0={"A": 0.0, "B": 60.0, "C": -60.0},
              policy={n: (lambda k, i=i: (i - 1) * 2.0 + 0.5 * k) for i, n in enumerate(names)},
              param=SimParameters(dt=dt, dt_commands=dt * 2, max_sim_time=dt * 6), goals=goals)
    ref = reference(cfg)
    sc = scenario(kind)
    before = digest(sc)
    inits_seen = {}

    def mutate(models, players):
        for n in names:
            base = players[n].policy
            issued = []

            def on_init(o, n=n):
                inits_seen[n] = (digest(o.dg_scenario), None if o.goal is None else o.goal.t, str(o.my_name))
                if n == bad and INIT[init_e]:
                    INIT[init_e](o)

            players[n].on_init = on_init

            def pol(k, obs, n=n, base=base, issued=issued):
                cmd = TCmd(cfg.policy[n](k), k)
                if n == bad:
                    if cmd_e == "scribble":
                        for old in issued:
                            old.v, old.serial = -99.0, -99
                    if k >= at and OBS[obs_e]:
                        OBS[obs_e](obs, n)
                issued.append(cmd)
                return cmd

            players[n].policy = pol

    ctx, rec = run_real(cfg, sensors=False, mutate=mutate, scenario=sc)
    what = f"{bad} edits init:{init_e} obs:{obs_e} cmd:{cmd_e}"
    for n in names:
        c.check(inits_seen[n][0] == before, "init-scenario", f"{what}: {n} was initialised with an edited scenario")
        want = None if n not in goals else goals[n].t
        c.check(inits_seen[n][1] == (dt * 5 if n == "A" else dt * 4 if n == "B" else None) if goals else True,
                "init-goal", f"{what}: {n} was initialised with an edited goal")
        c.check(inits_seen[n][2] == n, "init-name", what)
        c.compared()
    c.check(digest(ctx.dg_scenario) == before, "scenario", f"{what}: the scenario itself changed")
    if goals:
        c.check((goals["A"].t, goals["B"].t) == (dt * 5, dt * 4), "goals", f"{what}: a mission itself changed")
    check_log(c, cfg, ref, ctx)
    for n in names:
        c.close(ctx.models[n].get_state().x, ref["x"][n], "truth", f"{what}: position of {n}")
        obs = [e for e in rec if e[0] == "obs" and e[1] == n]
        c.check([e[2] for e in obs] == [t for t, _ in ref["logs"][n].obs], "obs-times", what)
        for e, (t, snap) in zip(obs, ref["logs"][n].obs):
            for q, xy in snap.items():
                c.close(e[3][q][:2], xy, "observations", f"{what}: at {t} {n} sees {q}")
                c.check(e[3][q][2] is not None, "observations", f"{what}: at {t} {n} sees no occupancy of {q}")
    c.check(ctx.time == ref["t"], "end", f"{what}: ended at {ctx.time}, expected {ref['t']}")
    c.step(ref["steps"])
    c.state((bad, init_e, obs_e, cmd_e, at, kind, len(names)))
    c.outcome((ctx.time, init_e, obs_e))


HARNESSES = [
    dict(name="edits", body=body, space="who edits x what is edited at init / in observations / in issued commands x when",
         quick=dict(inits=list(INIT), edits=list(OBS), ats=[0, 1], nmax=[2, 3], kinds=[0, 1]),
         thorough=dict(inits=list(INIT), edits=list(OBS), ats=[0, 1, 2], nmax=[2, 3], kinds=[0, 1])),
]
