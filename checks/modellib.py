"""One handle per dynamical model of the library, so that a property can be enumerated over all of them."""
from __future__ import annotations

import math
from dataclasses import dataclass, field, fields, replace
from decimal import Decimal as D
from typing import Any, Callable

import numpy as np
from shapely.geometry import Polygon

from dg_commons.sim.models.diff_drive import DiffDriveCommands, DiffDriveModel, DiffDriveState
from dg_commons.sim.models.obstacles import DynObstacleParameters, ObstacleGeometry
from dg_commons.sim.models.obstacles_dyn import DynObstacleCommands, DynObstacleModel, DynObstacleState
from dg_commons.sim.models.pedestrian import PedestrianCommands, PedestrianModel, PedestrianState
from dg_commons.sim.models.rocket import RocketCommands, RocketModel, RocketState
from dg_commons.sim.models.spacecraft import SpacecraftCommands, SpacecraftModel, SpacecraftState
from dg_commons.sim.models.spaceship import SpaceshipCommands, SpaceshipModel, SpaceshipState
from dg_commons.sim.models.vehicle import VehicleCommands, VehicleModel, VehicleState
from dg_commons.sim.models.vehicle_dynamic import VehicleModelDyn, VehicleStateDyn

DYN_SHAPE = Polygon([(1.4, 0.3), (0.2, 1.0), (-1.3, 0.6), (-1.1, -0.9), (0.8, -1.0)])
# the shape has to be centred on the centre of gravity
DYN_SHAPE = Polygon([(x - DYN_SHAPE.centroid.x, y - DYN_SHAPE.centroid.y) for x, y in DYN_SHAPE.exterior.coords])
# a body with small steps and a notch
_c = [(0.0, -1.2), (2.0, -1.2), (2.0, -0.8), (1.96, -0.8), (1.96, -0.4), (0.9, -0.4), (0.8, 0.3), (0.9, 1.0), (0.5, 1.03), (-0.2, 1.0), (-1.0, 0.6), (-1.03, 0.2), (-1.0, -0.5)]
ODD_SHAPE = Polygon([(x - Polygon(_c).centroid.x, y - Polygon(_c).centroid.y) for x, y in _c])


def _dynobs(x0):
    return DynObstacleModel(x0, shape=DYN_SHAPE, og=ObstacleGeometry(m=40.0, Iz=25.0, e=0.45),
                            op=DynObstacleParameters(vx_limits=(-8.0, 12.0), acc_limits=(-4.0, 6.0),
                                                     dpsi_limits=(-2.5, 3.0), ddpsi_limits=(-1.5, 1.0)))


@dataclass(frozen=True)
class Kind:
    name: str
    make: Callable[[Any], Any]
    state: type
    cmd: type
    base: dict  # components beyond the pose of a representative moving state
    full_velocity: bool  # linear and yaw velocity are part of the state
    frame: str = "body"  # frame of the velocity components of the state
    label: str = ""  # "*" if its parameters are not the default ones

    def x0(self, x=0.0, y=0.0, psi=0.0, **kw):
        d = dict(self.base)
        d.update({k: v for k, v in kw.items() if k in self.state.idx})
        return self.state(x=x, y=y, psi=psi, **d)

    def model(self, x=0.0, y=0.0, psi=0.0, **kw):
        return self.make(self.x0(x, y, psi, **kw))

    def still(self, x=0.0, y=0.0, psi=0.0):
        z = {k: 0.0 for k in self.base if k != "m"}
        return self.model(x, y, psi, **z)


_V = dict(vx=4.0, delta=0.2)
_VD = dict(vx=4.0, vy=0.3, dpsi=0.4, delta=0.1)
_F = dict(vx=2.0, vy=0.5, dpsi=0.4)
KINDS = {k.name: k for k in [
    Kind("car", VehicleModel.default_car, VehicleState, VehicleCommands, _V, False),
    Kind("truck", VehicleModel.default_truck, VehicleState, VehicleCommands, _V, False),
    Kind("bicycle", VehicleModel.default_bicycle, VehicleState, VehicleCommands, _V, False),
    Kind("cardyn", VehicleModelDyn.default_car, VehicleStateDyn, VehicleCommands, _VD, True),
    Kind("truckdyn", VehicleModelDyn.default_truck, VehicleStateDyn, VehicleCommands, _VD, True),
    Kind("bikedyn", VehicleModelDyn.default_bicycle, VehicleStateDyn, VehicleCommands, _VD, True),
    Kind("pedestrian", PedestrianModel.default, PedestrianState, PedestrianCommands, _F, True),
    Kind("diffdrive", DiffDriveModel.default, DiffDriveState, DiffDriveCommands, {}, False),
    Kind("spacecraft", SpacecraftModel.default, SpacecraftState, SpacecraftCommands, _F, True),
    Kind("rocket", RocketModel.default, RocketState, RocketCommands, dict(_F, phi=0.3, m=5.0), True, "global"),
    Kind("spaceship", SpaceshipModel.default, SpaceshipState, SpaceshipCommands, dict(_F, delta=0.3, m=5.0), True),
    Kind("dynobs", _dynobs, DynObstacleState, DynObstacleCommands, _F, True),
]}
FULL = [k for k, v in KINDS.items() if v.full_velocity]


def rot(psi):
    return np.array([[math.cos(psi), -math.sin(psi)], [math.sin(psi), math.cos(psi)]])


def arr(s):
    """values of a state or command by its declared fields, independent of its own array conversion"""
    return np.array([float(getattr(s, f.name)) for f in sorted(fields(s), key=lambda f: f.name)
                     if f.name not in ("idx", "lights")])


def names(s):
    return [f.name for f in sorted(fields(s), key=lambda f: f.name) if f.name not in ("idx", "lights")]


def cmd(kind: Kind, *vals):
    return kind.cmd.from_array(np.array(vals, dtype=float)) if vals else kind.cmd(
        **{n: 0.0 for n in kind.cmd.idx})


def mkcmd(kind: Kind, vals):
    return kind.cmd(**dict(zip(list(kind.cmd.idx), vals)))


def put(model, **kw):
    """overwrites components of the model's state"""
    s = model.get_state()
    for k, v in kw.items():
        setattr(s, k, v)
    model.set_state(s)


def global_velocity(kind: Kind, model):
    """velocity the state stands for, in the global frame; from the documented meaning of the fields"""
    s = model.get_state()
    if kind.name in ("car", "truck", "bicycle"):
        g = model.model_geometry
        w = s.vx * math.tan(s.delta) / (g.lf + g.lr)
        return rot(s.psi) @ np.array([s.vx, w * g.lr]), w
    if kind.name == "diffdrive":
        return np.zeros(2), 0.0
    v = np.array([s.vx, s.vy])
    return (v if kind.frame == "global" else rot(s.psi) @ v), s.dpsi


def set_global_velocity(kind: Kind, model, v, w):
    """puts a global velocity into the state (documented meaning of the fields), as far as the state can hold it"""
    s = model.get_state()
    v = np.array(v, dtype=float)
    loc = v if kind.frame == "global" else rot(-s.psi) @ v
    if kind.name == "diffdrive":
        return
    s.vx = float(loc[0])
    if kind.full_velocity:
        s.vy, s.dpsi = float(loc[1]), float(w)
    model.set_state(s)


def _odd(name):
    """the same model with a body and limits that are not those by default: nothing about them is symmetric, equal, or one"""
    def make(x0):
        if name == "dynobs":
            return DynObstacleModel(x0, shape=ODD_SHAPE, og=ObstacleGeometry(m=7.0, Iz=33.0, e=0.8),
                                    op=DynObstacleParameters(vx_limits=(-5.0, 3.0), acc_limits=(-7.0, 2.0), dpsi_limits=(-1.0, 1.6), ddpsi_limits=(-0.6, 2.2)))
        m = KINDS[name].make(x0)
        if name in ("car", "truck", "bicycle", "cardyn", "truckdyn", "bikedyn"):
            g, p = m.vg, m.vp
            m.vg = replace(g, lf=0.9 * g.lf, lr=1.25 * g.lr, m=1.1 * g.m, Iz=1.3 * g.Iz, w_half=0.9 * g.w_half, c_drag=0.5, c_rr_f=0.002,
                           c_rr_r=0.009, h_cog=0.55)
            m.vp = replace(p, vx_limits=(-1.7, 13.0), acc_limits=(-5.0, 3.2), delta_max=0.65, ddelta_max=0.8)
            if name.endswith("dyn"):
                m.pacejka_front, m.pacejka_rear = replace(m.pacejka_front, D=1.1), replace(m.pacejka_rear, D=0.85)
        elif name == "pedestrian":
            m.pp = replace(m.pp, vx_limits=(-1.0, 3.0), acc_limits=(-2.0, 3.5), dtheta_max=2.0)
        elif name == "diffdrive":
            m.vg, m.vp = replace(m.vg, wheelbase=0.8, wheelradius=0.25), replace(m.vp, omega_limits=(-3.0, 4.0))
        elif name == "spacecraft":
            m.sg = replace(m.sg, m=40.0, Iz=70.0, w_half=0.8, lf=2.0, lr=3.5)
            m.sp = replace(m.sp, acc_limits=(-6.0, 8.0), dpsi_limits=(-2.0, 3.0))
        elif name == "rocket":
            m.rg = replace(m.rg, Iz=1.7, l_m=0.4)
            m.rp = replace(m.rp, m_v=1.8, C_T=0.02, F_limits=(0.0, 3.0), delta_limits=(-0.8, 0.6), ddelta_limits=(-0.3, 0.5))
        elif name == "spaceship":
            m.rg = replace(m.rg, Iz=1.3, l_r=1.4)
            m.sp = replace(m.sp, m_v=1.8, C_T=0.02, thrust_limits=(-1.5, 2.5), delta_limits=(-0.7, 0.9), ddelta_limits=(-0.5, 0.8))
        return m
    return make


# every model, and every model with other parameters (their handles bear the name of the model)
MODELS = {**KINDS, **{f"{n}*": replace(k, make=_odd(n), label="*") for n, k in KINDS.items()}}
EVERY = sorted(MODELS)
