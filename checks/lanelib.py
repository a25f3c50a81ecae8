"""Lanes with a known centreline: pieces of constant curvature, cut at stations into control points."""
from __future__ import annotations

import math

import numpy as np

from dg_commons import SE2Transform
from dg_commons.maps.lanes import DgLanelet, LaneCtrPoint


def wrap(a):
    return math.atan2(math.sin(a), math.cos(a))


class Path:
    """pieces: (curvature, [lengths of the segments]); radii: half width at each control point"""

    def __init__(self, x, y, psi, pieces, radii):
        self.segs = [(k, l) for k, ls in pieces for l in ls]
        self.s = [0.0]
        self.q = [(x, y, psi)]
        for k, l in self.segs:
            self.q.append(self._along(self.q[-1], k, l))
            self.s.append(self.s[-1] + l)
        n = len(self.q)
        self.r = [radii[i % len(radii)] for i in range(n)]

    @staticmethod
    def _along(q, k, l):
        x, y, p = q
        if abs(k) < 1e-12:
            return x + l * math.cos(p), y + l * math.sin(p), p
        return x + (math.sin(p + k * l) - math.sin(p)) / k, y - (math.cos(p + k * l) - math.cos(p)) / k, p + k * l

    @property
    def L(self):
        return self.s[-1]

    def index(self, s):
        i = 0
        while i < len(self.segs) - 1 and s >= self.s[i + 1]:
            i += 1
        return i

    def pose(self, s):
        if s < 0:
            return self._along(self.q[0], 0, s)
        if s > self.L:
            return self._along(self.q[-1], 0, s - self.L)
        i = self.index(s)
        return self._along(self.q[i], self.segs[i][0], s - self.s[i])

    def radius(self, s):
        if s <= 0:
            return self.r[0]
        if s >= self.L:
            return self.r[-1]
        i = self.index(s)
        a = (s - self.s[i]) / self.segs[i][1]
        return self.r[i] * (1 - a) + self.r[i + 1] * a

    def at(self, s, d):
        x, y, p = self.pose(s)
        return x - d * math.sin(p), y + d * math.cos(p)

    def max_kappa(self):
        return max(abs(k) for k, _ in self.segs)

    def lane(self, wrapped=True):
        w = wrap if wrapped else (lambda a: a)
        return DgLanelet([LaneCtrPoint(SE2Transform([x, y], w(p)), r=r) for (x, y, p), r in zip(self.q, self.r)])

    def vertices(self):
        l = np.array([(x - r * math.sin(p), y + r * math.cos(p)) for (x, y, p), r in zip(self.q, self.r)])
        rr = np.array([(x + r * math.sin(p), y - r * math.cos(p)) for (x, y, p), r in zip(self.q, self.r)])
        return l, rr, np.array([(x, y) for x, y, _ in self.q])


def paths(x=1.0, y=-2.0, psi=0.3):
    return {
        "straight": Path(x, y, psi, [(0, [10.0, 5.0, 20.0, 2.0])], [2.0]),
        "one": Path(x, y, psi, [(0, [12.0])], [1.5]),
        "taper": Path(x, y, psi, [(0, [4.0, 4.0, 8.0])], [3.0, 2.0, 1.0]),
        "left": Path(x, y, psi, [(0.05, [5.0, 5.0, 2.5, 5.0])], [2.0]),
        "right": Path(x, y, psi, [(-0.08, [3.0, 6.0, 3.0])], [1.75]),
        "s": Path(x, y, psi, [(0.04, [6.0, 4.0]), (-0.05, [5.0, 5.0]), (0, [7.0])], [2.0, 1.5]),
        "fine": Path(x, y, psi, [(0.02, [1.0] * 15), (0, [0.5] * 10)], [1.8]),
        "late_bend": Path(x, y, psi, [(0, [30.0]), (0.1, [3.0, 3.0])], [2.0]),
    }


PATHS = sorted(paths())
