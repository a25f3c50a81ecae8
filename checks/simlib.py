"""A closed world for the simulator: tiny harness-owned models, agents, sensors and goals, plus a reference simulation.

Every object the simulator talks to is owned by the harness, so every environment answer is decided by the explorer and
every call the simulator makes is recorded."""
from __future__ import annotations

from copy import deepcopy
from dataclasses import dataclass, field, replace
from decimal import Decimal as D
from typing import Any, Callable, Optional

import numpy as np
from shapely import affinity
from shapely.geometry import Polygon

from dg_commons import PlayerName
from dg_commons.sim import CollisionReport
from dg_commons.sim.agents.agent import Agent
from dg_commons.sim.goals import PlanningGoal
from dg_commons.sim.models.obstacles import StaticObstacle
from dg_commons.sim.models.model_structures import ModelGeometry, ModelParameters, ModelType
from dg_commons.sim.scenarios.structures import DgScenario
from dg_commons.sim.sim_perception import IdObsFilter, ObsFilter
from dg_commons.sim.simulator import SimContext
from dg_commons.sim.utils import run_simulation
from dg_commons.sim.simulator_structures import SimModel, SimParameters

INF = D("Infinity")
DIAMOND = Polygon([(1.0, 0.0), (0.0, 1.0), (-1.0, 0.0), (0.0, -1.0)])
"""two of these on a line always overlap in a smaller diamond: two contact points and a contact normal along the line"""


@dataclass
class TState:
    """toy state; supports the vector operations of a state"""

    x: float
    y: float = 0.0
    psi: float = 0.0

    def __add__(self, o):
        return TState(self.x + o.x, self.y + o.y, self.psi + o.psi)

    def __mul__(self, k):
        return TState(self.x * k, self.y * k, self.psi * k)

    __rmul__ = __mul__


@dataclass
class TCmd:
    """toy command: a velocity, plus a serial number that identifies the request that produced it"""

    v: float
    serial: int = field(default=0, compare=False)


@dataclass(frozen=True, unsafe_hash=True)
class TGeo(ModelGeometry):
    @property
    def outline(self):
        return tuple(DIAMOND.exterior.coords)


class TModel(SimModel):
    def __init__(self, name: str, x: float, y: float = 0.0, rec: Optional[list] = None, hook=None, shape=DIAMOND,
                 m: float = 10.0):
        self._state = TState(x, y)
        self.name = name
        self.v = 0.0
        self.vel = np.array([0.0, 0.0])
        self.rec = rec if rec is not None else []
        self.geo = TGeo(m=m, Iz=m, e=0.5, color="red")
        self.par = ModelParameters(vx_limits=(-100, 100), acc_limits=(-100, 100))
        self.hook = hook
        self.shape = shape

    def __deepcopy__(self, memo):
        raise RuntimeError("the simulator is not expected to copy models")

    def update(self, commands, dt):
        if self.hook:
            self.hook("update", self.name)
        self.rec.append(("update", self.name, commands.v, commands.serial, dt))
        self.vel = np.array([float(commands.v), 0.0])
        self._state = replace(self._state, x=self._state.x + commands.v * float(dt))

    def get_footprint(self):
        return affinity.translate(self.shape, self._state.x, self._state.y)

    def get_pose(self):
        m = np.eye(3)
        m[0, 2], m[1, 2] = self._state.x, self._state.y
        return m

    def get_velocity(self, in_model_frame):
        return np.array(self.vel), 0.0

    def set_velocity(self, vel, omega, in_model_frame):
        self.vel = np.array(vel)

    def get_mesh(self):
        from dg_commons.sim.collision_structures import IMPACT_EVERYWHERE

        return {IMPACT_EVERYWHERE: self.get_footprint()}

    @property
    def model_geometry(self):
        return self.geo

    @property
    def model_type(self):
        return ModelType("toy")

    @property
    def model_params(self):
        return self.par

    def get_extra_collision_friction_acc(self):
        return 0.0, 0.0, 0.0


class TAgent(Agent):
    """records everything it is given; `policy(k, obs)` decides the k-th command, `extra(k)` the k-th extra"""

    def __init__(self, name, policy, rec, extra=None, hook=None, on_init=None):
        self.name, self.policy, self.rec, self.extra, self.hook = name, policy, rec, extra, hook
        self.on_init = on_init
        self.k = 0
        self.inits = 0

    def on_episode_init(self, init_sim_obs):
        if self.hook:
            self.hook("init", self.name)
        self.k = 0
        self.inits += 1
        self.rec.append(("init", self.name, init_sim_obs.my_name, init_sim_obs.seed))
        if self.on_init:
            self.on_init(init_sim_obs)

    def get_commands(self, sim_obs):
        if self.hook:
            self.hook("cmd", self.name)
        snap = {
            str(p): (o.state.x, o.state.y, None if o.occupancy is None else o.occupancy.bounds)
            for p, o in sim_obs.players.items()
        }
        self.rec.append(("obs", self.name, sim_obs.time, snap))
        cmd = self.policy(self.k, sim_obs)
        self.k += 1
        return cmd

    def on_get_extra(self):
        if self.extra is None:
            return None
        return self.extra(self.k - 1)


class TSensor(ObsFilter):
    """identity filter that records the calls and tags its output"""

    def __init__(self, rec, hook=None):
        self.rec, self.hook = rec, hook

    def sense(self, scenario, full_obs, pov):
        if self.hook:
            self.hook("sense", str(pov))
        self.rec.append(("sense", str(pov), full_obs.time, tuple(sorted(str(p) for p in full_obs.players))))
        return full_obs


@dataclass(frozen=True)
class TGoal(PlanningGoal):
    """fulfilled from time `t` on, or at or beyond position `x`"""

    t: Optional[D] = None
    x: Optional[float] = None
    sgn: int = 1

    def is_fulfilled(self, state, at=0):
        if self.t is not None and at >= self.t:
            return True
        return self.x is not None and self.sgn * (state.x - self.x) >= -1e-9

    def get_plottable_geometry(self, at=0):
        return DIAMOND

    @property
    def is_static(self):
        return self.t is None


@dataclass
class Cfg:
    """one closed simulation"""

    names: list
    x0: dict
    policy: dict  # name -> k -> velocity
    param: SimParameters
    goals: dict = field(default_factory=dict)
    extra: dict = field(default_factory=dict)
    t0: D = D(0)
    y0: dict = field(default_factory=dict)
    reach: float = 2.0
    obstacles: tuple = ()  # centres of static diamonds on the line y=0


@dataclass
class RefLog:
    states: list = field(default_factory=list)
    cmds: list = field(default_factory=list)
    extra: list = field(default_factory=list)
    obs: list = field(default_factory=list)
    updates: list = field(default_factory=list)


def reference(cfg: Cfg) -> dict:
    """What the documentation says a run does, written down independently of the code."""
    logs = {n: RefLog() for n in cfg.names}
    x = dict(cfg.x0)
    y = {n: cfg.y0.get(n, 0.0) for n in cfg.names}
    v = {n: 0.0 for n in cfg.names}
    vy = {n: 0.0 for n in cfg.names}
    active = list(cfg.names)
    count = {n: 0 for n in cfg.names}
    hold: dict = {}
    t, last = cfg.t0, None
    p = cfg.param
    first = INF
    reports = []
    steps = 0
    reason = None
    while True:
        ask = last is None or t - last >= p.dt_commands
        snap = {n: (x[n], y[n]) for n in active}
        for n in active:
            logs[n].states.append((t, x[n]))
            if ask:
                logs[n].obs.append((t, dict(snap)))
                hold[n] = (cfg.policy[n](count[n]), count[n])
                logs[n].cmds.append((t, hold[n]))
                e = cfg.extra[n](count[n]) if n in cfg.extra else None
                if e is not None:
                    logs[n].extra.append((t, e))
                count[n] += 1
        for n in active:
            logs[n].updates.append((hold[n], p.dt))
            x[n] += hold[n][0] * float(p.dt)
            v[n], vy[n] = hold[n][0], 0.0
        if ask:
            last = t
        steps += 1
        t += p.dt
        for n in list(active):
            g = cfg.goals.get(n)
            if g is not None and ((g.t is not None and t >= g.t) or
                                  (g.x is not None and g.sgn * (x[n] - g.x) >= -1e-9)):
                logs[n].states.append((t, x[n]))
                active.remove(n)
        over = []
        if t > p.max_sim_time:
            over.append("max_time")
        if t > first + p.sim_time_after_collision:
            over.append("collision")
        if not active:
            over.append("empty")
        if cfg.goals and not any(n in active for n in cfg.goals):
            over.append("missions")
        if over:
            reason = tuple(over)
            break
        for a in active:
            for k, ox in enumerate(cfg.obstacles):
                d = ox - x[a]
                if y[a] == 0 and abs(d) < cfg.reach and v[a] * d >= 0:
                    reports.append((t, a, "Env"))
                    first = min(first, t)
                    v[a] *= -0.1  # restitution of the default static obstacle
        for i, a in enumerate(active):
            for b in active[i + 1:]:
                d = x[b] - x[a]
                if y[a] == y[b] and abs(d) < cfg.reach:
                    rel = (v[a] - v[b]) * (1 if d > 0 else -1)
                    if rel >= 0:
                        reports.append((t, a, b))
                        first = min(first, t)
                        # equal masses, restitution 0.5
                        j = 0.75 * rel * (1 if d > 0 else -1)
                        v[a] -= j
                        v[b] += j
    return dict(logs=logs, t=t, steps=steps, active=active, first=first, reports=reports, reason=reason, x=x)


def policy_const(base):
    return lambda k: base


def run_real(cfg: Cfg, sim=None, hook=None, sensors=True, mutate=None, order=None, scenario=None):
    """Builds the context, runs the real simulator, returns (context, recorded events)."""
    rec: list = []
    mk_extra = lambda n: cfg.extra.get(n)
    models, players = {}, {}
    for n in cfg.names:
        models[n] = TModel(n, cfg.x0[n], cfg.y0.get(n, 0.0), rec, hook)
        pol = cfg.policy[n]
        players[n] = TAgent(n, (lambda k, obs, pol=pol: TCmd(pol(k), k)), rec, extra=mk_extra(n), hook=hook)
    if mutate:
        mutate(models, players)
    kw = dict(sensors={n: TSensor(rec, hook) for n in cfg.names}) if sensors else {}
    ctx = SimContext(
        dg_scenario=scenario or DgScenario(
            static_obstacles=[StaticObstacle(affinity.translate(DIAMOND, ox, 0)) for ox in cfg.obstacles] or None
        ),
        models=models,
        players=players,
        param=cfg.param,
        missions={n: g for n, g in cfg.goals.items()},
        time=cfg.t0,
        seed=7,
        **kw,
    )
    if sim:
        sim.run(ctx)
        return ctx, rec
    return run_simulation(ctx), rec
