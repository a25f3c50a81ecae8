"""C18 - states and commands of every model are vectors: conversions and arithmetic are component-wise."""
import copy
import math
from dataclasses import fields

import numpy as np

from .modellib import KINDS, names
from dg_commons.sim.models.vehicle_ligths import LIGHTS_TURN_LEFT

ASSUMPTIONS = ["lights are not part of the vector of a vehicle's commands"]
VALS = [0.0, -1.5, 2.25, 1e3, 0.1, -7.0, 3.0, 0.5]


def make(cls, vals):
    return cls(**{n: v for n, v in zip(list(cls.idx), vals)})


def raw(s):
    """by field name, not by the class' own conversion"""
    return {n: float(getattr(s, n)) for n in names(s)}


def types():
    out = {}
    for k in KINDS.values():
        out[k.state.__name__], out[k.cmd.__name__] = k.state, k.cmd
    return out


T = types()


def arrays(c, cls_names, probes):
    """array round trips put every component in its own place"""
    n = c.pick(cls_names, "type")
    cls = T[n]
    keys = list(cls.idx)
    c.check(sorted(cls.idx.values()) == list(range(len(keys))), "index", lambda: f"{n}: {dict(cls.idx)}")
    c.check(set(keys) == {f.name for f in fields(cls) if f.name not in ("idx", "lights")}, "index", lambda: f"{n}: {keys}")
    hot = c.choose(len(keys) + 1, "component")
    v = c.pick(probes, "value")
    vals = [0.0] * len(keys)
    if hot < len(keys):
        vals[hot] = v
    else:
        vals = [v + i for i in range(len(keys))]
    s = make(cls, vals)
    a = s.as_ndarray()
    c.compared(3)
    c.check(a.shape == (len(keys),), "shape", lambda: f"{n}: {a.shape}")
    for key, x in zip(keys, vals):
        c.check(a[cls.idx[key]] == x, "as-array", lambda: f"{n}: {key}={x} is {a[cls.idx[key]]} in {a}")
    back = cls.from_array(a)
    c.check(type(back) is cls and back == s and raw(back) == raw(s), "round-trip", lambda: f"{n}: {raw(s)} -> {a} -> {raw(back)}")
    c.check(hash(back) == hash(s), "hash", n)
    for key, x in zip(keys, vals):
        t = make(cls, vals)
        setattr(t, key, x + v)
        c.check(t != s, "different", lambda: f"{n}: {raw(t)} equals {raw(s)}")
    for bad in (a[:-1], np.append(a, 1.0)):
        try:
            cls.from_array(bad)
            c.fail("wrong-size", f"{n}: an array of {bad.size} was accepted")
        except (AssertionError, ValueError):
            pass
    size = cls.get_n_states() if hasattr(cls, "get_n_states") else cls.get_n_commands()
    c.check(size == len(keys), "size", lambda: f"{n}: {size}")
    c.state((n, hot, v))
    c.outcome((n, a.tolist()))


def algebra(c, cls_names, scalars, offsets):
    n = c.pick(cls_names, "type")
    cls = T[n]
    m = len(cls.idx)
    i, j = c.pick(offsets, "a"), c.pick(offsets, "b")
    k = c.pick(scalars, "scalar")
    va = [VALS[(i + t) % len(VALS)] for t in range(m)]
    vb = [VALS[(j + 3 * t) % len(VALS)] for t in range(m)]
    a, b = make(cls, va), make(cls, vb)
    ka, kb = raw(a), raw(b)

    def same(got, want, what):
        c.compared()
        c.check(type(got) is cls, what, lambda: f"{n}: {what} gives a {type(got)}")
        r = raw(got)
        for key in want:
            c.check(abs(r[key] - want[key]) <= 1e-9 * (1 + abs(want[key])), what,
                    lambda: f"{n}: {what}: {key} is {r[key]}, expected {want[key]} (a={ka}, b={kb}, k={k})")

    same(a + b, {x: ka[x] + kb[x] for x in ka}, "a+b")
    same(a - b, {x: ka[x] - kb[x] for x in ka}, "a-b")
    same(a * k, {x: ka[x] * k for x in ka}, "a*k")
    same(k * a, {x: ka[x] * k for x in ka}, "k*a")
    same(a / (k or 2.0), {x: ka[x] / (k or 2.0) for x in ka}, "a/k")
    same((a + b) * k - a * k, {x: kb[x] * k for x in ka}, "distributes")
    c.check(raw(a) == ka and raw(b) == kb, "mutates", lambda: f"{n}: an operand was changed")
    c.check((a == b) == (va == vb), "equality", lambda: f"{n}: {ka} == {kb}")
    cp = copy.deepcopy(a)
    c.check(cp == a and cp is not a, "copy", n)
    try:
        a + 1.0
        c.fail("mixing", f"{n}: a number was added")
    except (NotImplementedError, TypeError):
        pass
    c.state((n, i, j, k))
    c.outcome((n, list(raw(a + b).values())))


def mixed(c, cls_names):
    """states of different kinds do not add up"""
    n, o = c.pick(cls_names, "a"), c.pick(cls_names, "b")
    a, b = make(T[n], VALS), make(T[o], VALS)
    c.compared()
    try:
        r = a + b
        c.check(n == o, "mixing", lambda: f"{n} + {o} = {r}")
    except (NotImplementedError, TypeError):
        c.check(n != o, "mixing", lambda: f"{n} + {o} refused")
    c.state((n, o))
    c.outcome(n == o)


def special(c):
    s = make(T["VehicleStateDyn"], VALS)
    v = s.to_vehicle_state()
    c.check(type(v) is T["VehicleState"] and all(getattr(v, k) == getattr(s, k) for k in T["VehicleState"].idx), "convert", str(v))
    u = T["VehicleCommands"](acc=1.0, ddelta=2.0, lights=LIGHTS_TURN_LEFT)
    for r, what in ((u * 2.0, "*"), (u + T["VehicleCommands"](acc=0.0, ddelta=0.0), "+"), (u / 2.0, "/")):
        c.check(r.lights == LIGHTS_TURN_LEFT, "lights", lambda: f"{what} lost the lights command: {r}")
    c.compared(4)
    c.state(0)
    c.outcome(0)


N = sorted(T)
HARNESSES = [
    dict(name="arrays", body=arrays, space="type x component x value", quick=dict(cls_names=N, probes=[1.0, -2.5, 1e-3]),
         thorough=dict(cls_names=N, probes=[1.0, -2.5, 1e-3, 1e6, -0.1])),
    dict(name="algebra", body=algebra, space="type x operands x scalar",
         quick=dict(cls_names=N, scalars=[0.0, 1.0, -1.0, 0.25, 3.0], offsets=[0, 1, 2, 3]),
         thorough=dict(cls_names=N, scalars=[0.0, 1.0, -1.0, 0.25, 3.0, 1e3], offsets=list(range(8)))),
    dict(name="mixed", body=mixed, space="pairs of types", quick=dict(cls_names=N), thorough=dict(cls_names=N)),
    dict(name="special", body=special, space="conversions", quick={}, thorough={}),
]
