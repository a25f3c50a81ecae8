"""C35: the agents of the library do what they are given, in every episode."""
from __future__ import annotations

import copy
import itertools
import math
from dataclasses import fields, is_dataclass
from decimal import Decimal as D

from frozendict import frozendict
from geometry import SE2_from_xytheta, translation_from_SE2
from shapely.geometry import LineString, Point

from dg_commons import PlayerName, SE2_apply_T2
from dg_commons.controllers.pure_pursuit import PurePursuit, PurePursuitParam
from dg_commons.controllers.speed import SpeedBehavior
from dg_commons.seq.sequence import DgSampledSequence
from dg_commons.sim.agents.agent import NPAgent, PolicyAgent
from dg_commons.sim.agents.lane_follower import LFAgent
from dg_commons.sim.models.vehicle import VehicleCommands, VehicleModel, VehicleState
from dg_commons.sim.models.vehicle_ligths import LightsValues
from dg_commons.sim.models.vehicle_structures import VehicleGeometry
from dg_commons.sim.models.vehicle_utils import VehicleParameters
from dg_commons.sim.scenarios.structures import DgScenario
from dg_commons.sim.simulator import SimContext, Simulator
from dg_commons.sim.simulator_structures import InitSimObservations, PlayerObservations, SimObservations, SimParameters

from .lanelib import Path, paths

ASSUMPTIONS = ["plans are asked for instants after their beginning", "the goal point of the pure pursuit is that of C28"]


def vs(x, y, psi, vx, delta=0.0):
    return VehicleState(x=x, y=y, psi=psi, vx=vx, delta=delta)


def obs(states, t):
    return SimObservations(players=frozendict({PlayerName(p): PlayerObservations(state=s, occupancy=None) for p, s in states.items()}), time=t)


def init(name, seed=0):
    return InitSimObservations(my_name=PlayerName(name), seed=seed)


# ------------------------------------------------------------------------------------------------ simple agents
def plans(c, stamps, times, n):
    """an agent with a plan says what the plan says, whatever is going on"""
    ts = c.pick(stamps, "plan")
    cmds = [VehicleCommands(acc=float(i + 1), ddelta=-0.1 * i) for i in range(len(ts))]
    a = NPAgent(DgSampledSequence(timestamps=list(ts), values=list(cmds)))
    for ep in range(c.pick([1, 2], "episodes")):
        a.on_episode_init(init(c.pick(["A", "B"], "name"), seed=ep))
        for _ in range(n):
            t = c.pick(times, "time")
            t = D(str(t))
            if t < ts[0]:
                continue
            o = obs({"A": vs(float(t), ep, 0.0, 3.0), "B": vs(0.0, 0.0, 0.0, 1.0)}, t)
            got = a.get_commands(o)
            want = [cm for u, cm in zip(ts, cmds) if u <= t][-1]
            c.compared()
            c.step()
            c.check(got == want, "plan", lambda: f"{got} instead of {want} at {t}, plan at {ts}")
            c.check(a.on_get_extra() is None, "extra", "extras of a plan")
    c.state((ts, t, ep))
    c.outcome(str(got) if t >= ts[0] else "before")


def policies(c, names, n):
    """a policy sees the agent's own state"""
    seen = []

    def pol(s):
        seen.append(s)
        return VehicleCommands(acc=s.x, ddelta=s.vx)

    a = PolicyAgent(pol)
    asked = 0
    for ep in range(2):
        me = c.pick(names, "me")
        a.on_episode_init(init(me))
        for k in range(n):
            order = c.pick(list(itertools.permutations(names)), "order")
            states = {p: vs(10.0 * ep + k + 100 * names.index(p), 0.5, 0.1, float(names.index(p))) for p in order}
            got = a.get_commands(obs(states, D(k)))
            asked += 1
            s = states[me]
            c.compared()
            c.step()
            c.check(got == VehicleCommands(acc=s.x, ddelta=s.vx), "policy", lambda: f"{got} for {me} in {list(order)}")
            c.check(len(seen) == asked and seen[-1] == s, "policy", lambda: f"the policy was asked {len(seen)} times, last about {seen[-1]}")
            c.state((me, order, ep, k))
    c.outcome(me)


# ------------------------------------------------------------------------------------------------ lane follower
class Pid:
    """the discrete control law, written anew"""

    def __init__(self, kp, ki, kd, aw, sp, out):
        self.k, self.aw, self.sp, self.out = (kp, ki, kd), aw, sp, out
        self.t = None
        self.i = self.e = 0.0

    def __call__(self, ref, meas, t):
        clip = lambda v, lim: min(max(v, lim[0]), lim[1])
        e = clip(ref, self.sp) - meas
        dt = 0.0 if self.t is None else t - self.t
        self.i = clip(self.i + self.k[1] * e * dt, self.aw)
        d = (e - self.e) / dt if dt else 0.0
        self.t, self.e = t, e
        return clip(self.k[0] * e + self.i + self.k[2] * d, self.out)


class Follower:
    """the lane follower, put together anew from its parts"""

    def __init__(self, lane, vp, prm):
        self.lane = lane
        self.speed = Pid(4, 0.01, 0.1, (-2, 2), vp.vx_limits, vp.acc_limits)
        self.steer = Pid(4, 0.1, 0.2, (-0.5, 0.5), (-vp.delta_max, vp.delta_max), (-vp.ddelta_max, vp.ddelta_max))
        self.prm = prm
        self.stop = False

    def __call__(self, s, ref, emergency, t):
        self.stop = self.stop or emergency
        ref = 0 if self.stop else ref
        q = SE2_from_xytheta([s.x, s.y, s.psi])
        pp = PurePursuit(copy.deepcopy(self.prm))
        pp.update_path(self.lane)
        pp.update_pose(pose=q, along_path=self.lane.lane_pose_from_SE2_generic(q).along_lane)
        pp.update_speed(speed=ref)
        self.pp = pp
        return self.speed(ref, s.vx, t), self.steer(pp.get_desired_steering(), s.delta, t)


class Told(SpeedBehavior):
    """a behaviour that says what the explorer decides, and remembers whom it saw"""

    def __init__(self, say):
        super().__init__()
        self.say = say
        self.heard = []

    def get_speed_ref(self, at):
        self.heard.append((at, self.my_name, dict(self.agents)))
        return self.say(at)


VP = {"car": (VehicleParameters.default_car(), VehicleGeometry.default_car()), "truck": (VehicleParameters.default_truck(), VehicleGeometry.default_truck()),
      "odd": (VehicleParameters(vx_limits=(-1.0, 6.0), acc_limits=(-1.5, 0.5), delta_max=0.2, ddelta_max=0.1), VehicleGeometry.default_bicycle())}
SITS = [(2.0, 0.4, 0.1, 5.0, 0.05), (6.0, -0.6, -0.2, 8.0, -0.1), (9.0, 1.0, 0.0, 0.0, 0.0)]
PRM = PurePursuitParam(look_ahead_minmax=(2.0, 9.0), min_distance=1.0, k_lookahead=0.5, length=2.5, lr=1.0)


def follower(c, vps, lanes, says, dts, n, extras, given):
    """one or two episodes of observations: every command is that of the control loop made of the agent's parts"""
    vpn, lname = c.pick(vps, "vehicle"), c.pick(lanes, "lane")
    vp, geo = VP[vpn]
    own = c.pick(given, "pure pursuit given")
    ex = c.pick(extras, "extra")
    path = paths(1.0, -2.0, 0.3)[lname]
    lane = path.lane()
    said = []
    told = Told(lambda at: said[-1])
    pp = PurePursuit(copy.deepcopy(PRM)) if own else None
    prm = PRM if own else PurePursuitParam(length=geo.lf + geo.lr, lr=geo.lr)
    a = LFAgent(lane, model_params=vp, model_geo=geo, speed_behavior=told, pure_pursuit=pp, return_extra=ex)
    neps = c.pick([1, 2], "episodes")
    hist = []
    for ep in range(neps):
        me = ("A", "B")[ep]
        a.on_episode_init(init(me))
        f = Follower(lane, vp, prm)
        t = D(0) if ep == 0 else c.pick([D(0), D(3)], "begin")
        for k in range(n if ep == 0 else 2):
            s, d, h, v, de = c.pick(SITS, "situation") if ep == 0 else SITS[k]
            x, y = path.at(min(s, path.L), d)
            st = vs(x, y, path.pose(min(s, path.L))[2] + h, v, de)
            others = {"A": st, "B": vs(-40.0, 3.0, 0.0, 2.0)} if me == "A" else {"A": vs(-40.0, 3.0, 0.0, 2.0), "B": st}
            crowd = {f"C{i}": vs(-60.0 - 9 * i, 3.0 * i, 0.1, 1.0 * i) for i in range(5)}
            others = {**crowd, **others} if k % 2 else {**others, **crowd}
            said.append(c.pick(says, "behaviour") if ep == 0 or k == 0 else says[0])
            o = obs(others, t)
            keep = copy.deepcopy(o)
            got = a.get_commands(o)
            acc, dd = f(st, *said[-1], float(t))
            hist.append((ep, str(t), (s, d, h, v, de), said[-1]))
            what = lambda: f"{got} instead of acc {acc}, ddelta {dd}: {vpn} on {lname}, {hist}"
            c.close([got.acc, got.ddelta], [acc, dd], "commands", what, tol=2e-2)
            c.check(isinstance(got, VehicleCommands) and got.lights in LightsValues, "lights", what)
            c.check(o == keep, "arguments", "the observations have changed")
            at, name, saw = told.heard[-1]
            c.check(len(told.heard) == len(hist) and at == float(t) and name == me and saw == dict(o.players), "behaviour", lambda: f"asked at {at} as {name} about {saw}: {what()}")
            e = a.on_get_extra()
            if not ex:
                c.check(e is None, "extra", lambda: str(e))
            else:
                c.check(len(e) == 1 and len(e[0]) == 2, "extra", lambda: str(e))
                p0, p1 = [(q.x, q.y) for q in e[0][0].values]
                _, g = f.pp.find_goal_point()
                gp = translation_from_SE2(g)
                c.check(math.dist(p1, gp) < 2e-2, "extra", lambda: f"goal {p1} instead of {gp}: {what()}")
                import numpy as np
                dist0 = math.dist(p0, (st.x, st.y))
                back = SE2_apply_T2(SE2_from_xytheta([st.x, st.y, st.psi]), np.array([-dist0, 0]))
                c.check(math.dist(p0, back) < 1e-6 and dist0 > 0, "extra", lambda: f"starts at {p0}, not behind the vehicle: {what()}")
            t += c.pick(dts, "dt") if ep == 0 else dts[0]
            c.step()
    c.state(tuple(hist))
    c.outcome((vpn, round(acc, 2)))


def world(c, lanes, kinds, n, offs):
    """whole simulations: an agent that has driven before drives as a new one; agents do not share anything"""
    lname, off, v = c.pick(lanes, "lane"), c.pick(offs, "offset"), c.pick([3.0, 9.0], "vx")
    path = paths(1.0, -2.0, 0.3)[lname]
    vp, geo = VP["car"]

    def agent(y0=0.0):
        return LFAgent(paths(1.0, -2.0 + y0, 0.3)[lname].lane(), model_params=vp, model_geo=geo)

    def run(ags, vx, off):
        ms, pl = {}, {}
        for i, (p, ag) in enumerate(ags.items()):
            x, y = path.at(1.0, off)
            ms[PlayerName(p)] = VehicleModel.default_car(vs(x, y + 60.0 * (p == "B"), 0.3, vx))
            pl[PlayerName(p)] = ag
        ctx = SimContext(dg_scenario=DgScenario(), models=ms, players=pl, param=SimParameters(dt=D("0.1"), dt_commands=D("0.1"), max_sim_time=D(n)))
        Simulator().run(ctx)
        return {p: (list(ctx.log[p].commands.values), list(ctx.log[p].states.values)) for p in ags}

    alone = run({"A": agent()}, v, off)["A"]
    c.check(len(alone[0]) > 5, "simulation", "no commands")
    used = agent()
    run({"A": used}, c.pick([1.0, 14.0], "first episode at"), -off)
    again = run({"A": used}, v, off)["A"]
    c.check(again == alone, "episodes", lambda: f"second episode: {first_diff(again, alone)}")
    both = run({"A": agent(), "B": agent(60.0)}, v, off) if c.flag("A first") else run({"B": agent(60.0), "A": agent()}, v, off)
    c.check(both["A"] == alone, "sharing", lambda: f"with another agent: {first_diff(both['A'], alone)}")
    c.close([(s.x, s.y - 60.0) for s in both["B"][1]], [(s.x, s.y) for s in alone[1]], "sharing", "the other agent drives differently", tol=5e-2)
    c.compared(3 * len(alone[0]))
    c.step(len(alone[0]))
    c.state((lname, off, v))
    c.outcome(round(alone[1][-1].x, 3))


def first_diff(a, b):
    for i, (x, y) in enumerate(zip(a[0], b[0])):
        if x != y:
            return f"command {i}: {x} instead of {y}"
    return f"{len(a[0])}, {len(b[0])} commands"


REFS = [(7.0, False), (0.0, False), (7.0, True), (40.0, False)]
HARNESSES = [
    dict(name="plan", body=plans, space="plans x sequences of instants x episodes x names",
         quick=dict(stamps=[(D(0),), (D(0), D("0.5"), D(2)), (D("-1"), D(1)), (D(0), D("0.455"), D("0.46"), D("1.0001"))],
                    times=[0, 0.4, 0.454, 0.456, 0.5, 1, 1.0002, 7], n=2), thorough=dict(stamps=[(D(0),), (D(0), D("0.5"), D(2)), (D("-1"), D(1)), (D(0), D("0.455"), D("0.46"), D("1.0001"))], times=[-0.5, 0, 0.4, 0.454, 0.456, 0.5, 1, 1.0002, 2, 7], n=2)),
    dict(name="policy", body=policies, space="names x orders of the players x episodes", args=dict(names=["A", "B", "C"], n=2)),
    dict(name="follower", body=follower, space="vehicle x lane x sequences of situations and decisions of the behaviour x episodes x extras",
         quick=dict(vps=["car", "odd"], lanes=["s"], says=REFS[:3], dts=[D("0.1")], n=2, extras=[False, True], given=[False, True]),
         thorough=dict(vps=["car", "truck", "odd"], lanes=["s", "left"], says=REFS[:3], dts=[D("0.1"), D("1.5")], n=2, extras=[True], given=[False, True])),
    dict(name="long", body=follower, space="sequences of decisions of the behaviour",
         quick=dict(vps=["car"], lanes=["left"], says=[REFS[0], REFS[2]], dts=[D("0.1")], n=3, extras=[False], given=[False]),
         thorough=dict(vps=["car"], lanes=["left"], says=REFS[:3], dts=[D("0.1")], n=4, extras=[False], given=[False])),
    dict(name="world", body=world, space="lane x offset x speed x earlier episode x order",
         quick=dict(lanes=["straight", "left"], kinds=None, n=2, offs=[0.8]), thorough=dict(lanes=["straight", "left", "s", "fine"], kinds=None, n=3, offs=[0.0, 0.8, -1.2])),
]
