"""C30 - efficiency and comfort metrics over all small logs, and lanes of networks of known topology."""
import math
import signal
from decimal import Decimal as D

import numpy as np
from commonroad.scenario.lanelet import LaneletNetwork
from shapely.geometry import LineString, Point

from dg_commons import DgSampledSequence, SE2Transform
from dg_commons.eval.comfort import acc_freq_filter, get_acc_rms, get_max_jerk
from dg_commons.eval.efficiency import desired_lane_reached, distance_traveled, get_predecessor_dglane, get_successor_dglane, time_goal_lane_reached
from dg_commons.maps.lanes import DgLanelet
from dg_commons.sim.goals import RefLaneGoal
from dg_commons.sim.models.vehicle import VehicleCommands, VehicleState

from .c25 import arc, strip
from .lanelib import wrap

ASSUMPTIONS = ["lanes that bend gently, as the search of the lane position is documented to be local",
               "headings near the tolerance (within the bend of a lane over 1 m) are not judged",
               "only the first successor and predecessor of a lane are followed, as documented"]
CONV = dict(float=float, dec=lambda t: D(str(t)), int=lambda t: int(round(t * 100)))


def travelled(c, pts, n, dts, stamps):
    conv = CONV[c.pick(stamps, "timestamps")]
    k = c.pick(n, "n")
    q = [c.pick(pts, f"point{i}") for i in range(k)]
    ts = [0.5]
    v = c.pick([1.0, -2.0, 0.0], "speed")
    for i in range(k - 1):
        ts.append(ts[-1] + c.pick(dts, f"dt{i}"))
    seq = DgSampledSequence([conv(t) for t in ts[:k]], [VehicleState(x=x, y=y, psi=0.3 * i, vx=v, delta=0.0) for i, (x, y) in enumerate(q)])
    got = distance_traveled(seq)
    want = math.fsum(math.dist(a, b) for a, b in zip(q, q[1:]))
    c.step()
    c.compared()
    c.check(abs(got - want) < 1e-9 * (1 + want), "distance", lambda: f"{got} along {q}")
    c.state(tuple(q))
    c.outcome(round(want, 3))


def commands(c, accs, n, dts, t0s, stamps):
    conv = CONV[c.pick(stamps, "timestamps")]
    k = c.pick(n, "n")
    a = [c.pick(accs, f"acc{i}") for i in range(k)]
    ts = [c.pick(t0s, "t0")]
    for i in range(k - 1):
        ts.append(round(ts[-1] + c.pick(dts, f"dt{i}"), 6))
    return conv, a, ts, DgSampledSequence([conv(t) for t in ts], [VehicleCommands(acc=x, ddelta=0.1 * i) for i, x in enumerate(a)])


def jerk(c, accs, n, dts, t0s, ranges, stamps):
    conv, a, ts, seq = commands(c, accs, n, dts, t0s, stamps)
    lo, hi = c.pick(ranges, "range")
    scale = 100 if conv is CONV["int"] else 1
    if scale == 100:
        ts = [conv(t) for t in ts]
        lo, hi = (None if v is None else conv(v) for v in (lo, hi))
    inside = lambda t: (lo is None or t >= lo) and (hi is None or t <= hi)
    if any(v is not None and abs(t - v) < 1e-9 for t in ts[1:] for v in (lo, hi)) and scale == 1:
        # exactly representable instants only
        c.count("limits on samples")
    want = max([abs(a[i + 1] - a[i]) / (ts[i + 1] - ts[i]) for i in range(len(a) - 1) if inside(ts[i + 1])], default=0)
    got = get_max_jerk(seq, (lo, hi)) if (lo, hi) != (None, None) else get_max_jerk(seq)
    c.step()
    c.compared()
    c.check(abs(got - want) < 1e-9 * (1 + want), "jerk", lambda: f"{got}, expected {want}: {a} at {ts}, range {lo, hi}")
    c.state((tuple(a), tuple(ts), lo, hi))
    c.outcome(round(want, 3))


def weight(f):
    return (14.55 * f**2 + 6.026 * f + 7.725) / (f**3 + 15.02 * f**2 + 51.63 * f + 47.61)


def rms_of(a, dt):
    """root of the mean square of the weighted signal, from its complete discrete spectrum"""
    n = len(a)
    tot = 0.0
    for k in range(n):
        z = sum(x * complex(math.cos(2 * math.pi * k * j / n), -math.sin(2 * math.pi * k * j / n)) for j, x in enumerate(a))
        f = min(k, n - k) / (n * dt)
        tot += abs(z * weight(f)) ** 2
    return math.sqrt(tot) / n


def comfort(c, accs, n, dts, ranges, stamps):
    k = c.pick(n, "n")
    dt = c.pick(dts, "period")
    conv = CONV[c.pick(stamps, "timestamps")]
    a = [c.pick(accs, f"acc{i}") for i in range(k)]
    ts = [round(i * dt, 6) for i in range(k)]
    seq = DgSampledSequence([conv(t) for t in ts], [VehicleCommands(acc=x, ddelta=0.0) for x in a])
    lo, hi = c.pick(ranges, "range")
    sel = [x for x, t in zip(a, ts) if (lo is None or t >= round(lo * dt, 6)) and (hi is None or t <= round(hi * dt, 6))]
    if not sel:
        c.count("nothing in the range")
        return
    rng = tuple(None if v is None else conv(round(v * dt, 6)) for v in (lo, hi))
    got = get_acc_rms(seq, rng) if rng != (None, None) else get_acc_rms(seq)
    want = rms_of(sel, dt)
    c.step()
    c.compared()
    what = lambda: f"{got}, expected {want}: {a} every {dt} s, range {rng}"
    ok = abs(got - want) < 1e-9 * (1 + want)
    if not ok and dt != 0.1 and abs(got - rms_of(sel, 0.1)) < 1e-9 * (1 + want):
        c.fail("rms-sampling", what)
    else:
        c.check(ok, "rms", what)
    c.state((tuple(a), dt, lo, hi))
    c.outcome(round(want, 4))


def weights(c, freqs):
    f = c.pick(freqs, "frequency")
    c.step()
    c.compared()
    c.check(abs(acc_freq_filter(f) - weight(f)) < 1e-12, "weight", f"at {f} Hz: {acc_freq_filter(f)}")
    c.state(f)
    c.outcome(round(weight(f), 4))


def poly(y, *xs):
    return [(x, y) for x in xs]


R = 30.0
NETS = {
    "chain": lambda: [strip(1, poly(0, 0, 5, 12, 20), 2, succ=[2]), strip(2, poly(0, 20, 28, 35), 2, pred=[1], succ=[3]), strip(3, poly(0, 35, 45, 60), 2, pred=[2])],
    "reversed": lambda: [strip(30, poly(0, 0, 20), 2, succ=[20]), strip(20, poly(0, 20, 35), 2, pred=[30], succ=[10]), strip(10, poly(0, 35, 60), 2, pred=[20])],
    "two": lambda: [strip(1, poly(0, 0, 10, 20), 2, succ=[2]), strip(2, poly(0, 20, 30, 40), 2, pred=[1]), strip(3, poly(4, 0, 10, 20), 2, succ=[4]), strip(4, poly(4, 20, 30, 40), 2, pred=[3])],
    "fork": lambda: [strip(1, poly(0, 0, 10, 20), 2, succ=[2, 3]), strip(2, poly(0, 20, 22, 30, 45), 2, pred=[1]), strip(3, arc(20, R, R, -math.pi / 2, -math.pi / 2 + 0.5, 30), 2, pred=[1], succ=[4]),
                     strip(4, arc(20, R, R, -math.pi / 2 + 0.5, -math.pi / 2 + 1.0, 30), 2, pred=[3])],
    "bend": lambda: [strip(1, poly(0, -40, -20, 0), 2, succ=[2]), strip(2, arc(0, R, R, -math.pi / 2, -math.pi / 2 + 0.5, 30), 2, pred=[1], succ=[3]),
                     strip(3, arc(0, R, R, -math.pi / 2 + 0.5, -math.pi / 2 + 1.0, 30), 2, pred=[2])],
    "ring": lambda: [strip(i + 1, arc(0, 0, R, i * math.pi / 3, (i + 1) * math.pi / 3, 30), 2, pred=[(i - 1) % 6 + 1], succ=[(i + 1) % 6 + 1]) for i in range(6)],
    # lanes that are not connected in the order of their ids
    "order": lambda: [strip(1, poly(0, 0, 10, 20), 2, succ=[5, 2]), strip(5, arc(20, R, R, -math.pi / 2, -math.pi / 2 + 0.9, 30), 2, pred=[1]), strip(2, poly(0, 20, 22, 30, 45), 2, pred=[1])],
    "merge": lambda: [strip(1, poly(0, 0, 10, 30), 2, succ=[3]), strip(2, arc(30, R, R, -math.pi / 2 - 0.9, -math.pi / 2, 30), 2, succ=[3]), strip(3, poly(0, 30, 40, 55), 2, pred=[2, 1])],
    "merge2": lambda: [strip(1, poly(0, 0, 10, 30), 2, succ=[3]), strip(2, arc(30, R, R, -math.pi / 2 - 0.9, -math.pi / 2, 30), 2, succ=[3]), strip(3, poly(0, 30, 40, 55), 2, pred=[1, 2])],
}


class Hang(Exception):
    pass


def limited(f, *a):
    def stop(*_):
        raise Hang

    old = signal.signal(signal.SIGALRM, stop)
    rest = signal.setitimer(signal.ITIMER_REAL, 10)
    try:
        return f(*a)
    finally:
        signal.signal(signal.SIGALRM, old)
        signal.setitimer(signal.ITIMER_REAL, *rest)


def chain(lan, i):
    """ids connected to i through first successors or first predecessors"""
    ids = {i}
    for nxt in ("successor", "predecessor"):
        j = i
        while getattr(lan[j], nxt) and getattr(lan[j], nxt)[0] not in ids:
            j = getattr(lan[j], nxt)[0]
            ids.add(j)
    return ids


def along(l, f):
    """pose on the centre of a lanelet, at a fraction of its length"""
    line = LineString(l.center_vertices)
    s = f * line.length
    p = line.interpolate(s)
    a, b = line.interpolate(max(s - 0.05, 0)), line.interpolate(min(s + 0.05, line.length))
    return p.x, p.y, math.atan2(b.y - a.y, b.x - a.x)


def reached(c, nets, fracs, laterals, headings, tols):
    name = c.pick(nets, "network")
    net = LaneletNetwork.create_from_lanelet_list(NETS[name](), cleanup_ids=False)
    lan = {l.lanelet_id: l for l in net.lanelets}
    g, on = c.pick(list(lan), "goal lane"), c.pick(list(lan), "on")
    pt, ht = c.pick(tols, "tolerances")
    x, y, h = along(lan[on], c.pick(fracs, "along"))
    d, dh = c.pick(laterals, "lateral"), c.pick(headings, "heading")
    x, y = x - d * math.sin(h), y + d * math.cos(h)
    lane = DgLanelet.from_commonroad_lanelet(lan[g])
    prog = c.pick([0.6, None], "progress")
    goal = RefLaneGoal(lane, 1e4 if prog is None else prog * lane.get_lane_length())
    s = VehicleState(x=x, y=y, psi=h + dh, vx=3.0, delta=0.0)
    c.step()
    c.compared()
    what = lambda: f"{name}: goal lane {g} (progress {prog}), pose on {on} {x, y, h + dh}, {d} m and {dh} rad off, tolerances {pt, ht}"
    try:
        got = limited(desired_lane_reached, net, goal, s, pt, ht)
    except Hang:
        c.fail("terminates", what)
    ids = chain(lan, g)
    gap = min(LineString(lan[i].center_vertices).distance(Point(x, y)) for i in ids)
    if on in ids:
        ok = abs(d) < min(pt, 2.0) and abs(wrap(dh)) < ht
    else:
        if gap < 2.5:
            c.count("next to the lane")
            return
        ok = False
    if prog is not None and goal.is_fulfilled(s):
        ok = True
    c.check(bool(got) == ok, "reached", lambda: f"{got}: {what()}")
    c.state((name, g, on, round(x, 3), round(y, 3), dh, pt))
    c.outcome((name, bool(got)))


def anywhere(c, nets, grid, headings):
    """off the road, too"""
    name = c.pick(nets, "network")
    net = LaneletNetwork.create_from_lanelet_list(NETS[name](), cleanup_ids=False)
    lan = {l.lanelet_id: l for l in net.lanelets}
    g = c.pick(list(lan), "goal lane")
    x, y, h = c.pick(grid, "x"), c.pick(grid, "y"), c.pick(headings, "heading")
    goal = RefLaneGoal(DgLanelet.from_commonroad_lanelet(lan[g]), 1e4)
    c.step()
    c.compared()
    what = lambda: f"{name}: goal lane {g}, {x, y, h}"
    try:
        got = limited(desired_lane_reached, net, goal, VehicleState(x=x, y=y, psi=h, vx=3.0, delta=0.0), 0.8, 0.08)
    except Hang:
        c.fail("terminates", what)
    if got:
        # only on a connected lane, or its straight extension beyond a dead end
        ids = chain(lan, g)
        lines = []
        for i in ids:
            v = lan[i].center_vertices
            a, b = v[0] - (v[1] - v[0]) / np.linalg.norm(v[1] - v[0]) * 200, v[-1] + (v[-1] - v[-2]) / np.linalg.norm(v[-1] - v[-2]) * 200
            lines.append(LineString(([a] if not lan[i].predecessor else []) + list(v) + ([b] if not lan[i].successor else [])))
        c.check(min(l.distance(Point(x, y)) for l in lines) < 0.85, "off-lane", what)
    c.state((name, g, x, y, h))
    c.outcome((name, bool(got)))


def when(c, nets, n, spots, stamps):
    """the first instant"""
    conv = CONV[c.pick(stamps, "timestamps")]
    name = c.pick(nets, "network")
    net = LaneletNetwork.create_from_lanelet_list(NETS[name](), cleanup_ids=False)
    lan = {l.lanelet_id: l for l in net.lanelets}
    ids = list(lan)
    g = c.pick([ids[0], ids[-1]], "goal lane")
    goal = RefLaneGoal(DgLanelet.from_commonroad_lanelet(lan[g]), 1e4)
    states, first = [], None
    ts = [0.5 + 0.25 * i for i in range(c.pick(n, "n"))]
    for t in ts:
        on, d, dh = c.pick(spots, "spot")
        on = g if on else next((i for i in ids if i not in chain(lan, g)), g)
        x, y, h = along(lan[on], 0.4)
        states.append(VehicleState(x=x - d * math.sin(h), y=y + d * math.cos(h), psi=h + dh, vx=3.0, delta=0.0))
        if first is None and on in chain(lan, g) and abs(d) < 0.8 and abs(dh) < 0.08:
            first = t
    seq = DgSampledSequence([conv(t) for t in ts], states)
    got = time_goal_lane_reached(net, goal, seq)
    want = None if first is None else float(conv(first))
    c.step()
    c.compared()
    c.check(got == want, "when", lambda: f"{got}, expected {want}: {name}, goal lane {g}, {states}")
    c.state((name, g, tuple((round(s.x, 3), round(s.y, 3), s.psi) for s in states)))
    c.outcome(want)


def neighbours(c, nets):
    """lanes before and after"""
    name = c.pick(nets, "network")
    net = LaneletNetwork.create_from_lanelet_list(NETS[name](), cleanup_ids=False)
    lan = {l.lanelet_id: l for l in net.lanelets}
    i = c.pick(list(lan), "lane")
    arg = lan[i] if c.flag("lanelet") else DgLanelet.from_commonroad_lanelet(lan[i])
    for f, ids in ((get_successor_dglane, lan[i].successor), (get_predecessor_dglane, lan[i].predecessor)):
        got = f(net, arg)
        c.step()
        c.compared()
        want = None if not ids else [(p.q.p[0], p.q.p[1], p.r) for p in DgLanelet.from_commonroad_lanelet(lan[ids[0]]).control_points]
        c.check(want == (None if got is None else [(p.q.p[0], p.q.p[1], p.r) for p in got.control_points]), "neighbour", lambda: f"{f.__name__} of {i} in {name}: {got}")
    c.state((name, i))
    c.outcome((name, i))


RANGES = [(None, None), (0.35, None), (None, 0.75), (0.3, 0.62), (5.0, 9.0), (0.0, None), (None, 0.0), (0.4, 0.5), (0.8, 0.8)]
HARNESSES = [
    dict(name="travelled", body=travelled, space="all small trajectories", quick=dict(pts=[(0, 0), (3, 4), (-1, 0.5), (1e3, -1e3)], n=[1, 2, 3, 4], dts=[0.1, 2.0], stamps=list(CONV)),
         thorough=dict(pts=[(0, 0), (3, 4), (-1, 0.5), (1e3, -1e3), (3, 4.5)], n=[1, 2, 3, 4, 5], dts=[0.1, 2.0], stamps=list(CONV))),
    dict(name="jerk", body=jerk, space="all small sequences of commands x periods x range", quick=dict(accs=[0.0, 1.0, -2.5], n=[1, 2, 3, 4], dts=[0.1, 0.4], t0s=[0.0, 0.2, -0.4], ranges=RANGES, stamps=list(CONV)),
         thorough=dict(accs=[0.0, 1.0, -2.5, 6.0], n=[1, 2, 3, 4, 5], dts=[0.1, 0.4], t0s=[0.0, 0.2, -0.4], ranges=RANGES, stamps=list(CONV))),
    dict(name="comfort", body=comfort, space="all small sequences of commands x period x range",
         quick=dict(accs=[0.0, 1.0, -2.5], n=[1, 2, 3, 4, 5, 6], dts=[0.1, 0.25], ranges=[(None, None), (0.5, None), (None, 2.5), (0.5, 3.5), (1, 3), (None, 0), (0, None)], stamps=["float", "dec"]),
         thorough=dict(accs=[0.0, 1.0, -2.5], n=[1, 2, 3, 4, 5, 6, 7, 8], dts=[0.1, 0.25, 0.05], ranges=[(None, None), (0.5, None), (None, 2.5), (0.5, 3.5), (1, 3), (None, 0), (0, None)], stamps=["float", "dec"])),
    dict(name="weights", body=weights, space="frequencies", args=dict(freqs=[0.0, 0.01, 0.1, 0.5, 1.0, 2.0, 3.3, 5.0, 10.0, 50.0, 80.0])),
    dict(name="reached", body=reached, space="network x goal lane x lane x position along, lateral, heading x tolerances",
         quick=dict(nets=list(NETS), fracs=[0.02, 0.4, 0.61, 0.97], laterals=[0.0, 0.7, -0.9, 1.5], headings=[0.0, -0.03, 0.13, -0.2, 3.1], tols=[(0.8, 0.08), (1.2, 0.25)]),
         thorough=dict(nets=list(NETS), fracs=[0.02, 0.1, 0.25, 0.4, 0.59, 0.61, 0.8, 0.97], laterals=[0.0, 0.7, -0.7, -0.9, 1.0, 1.5, -1.9], headings=[0.0, -0.03, 0.035, 0.13, -0.3, 3.1], tols=[(0.8, 0.08), (1.2, 0.25), (0.3, 0.08)])),
    dict(name="anywhere", body=anywhere, space="network x goal lane x positions on a grid x heading",
         quick=dict(nets=list(NETS), grid=[-70.0, -33.0, -21.0, -8.0, 0.3, 9.0, 17.0, 26.0, 41.0, 66.0], headings=[0.0, 1.6]),
         thorough=dict(nets=list(NETS), grid=[-70.0 + 4.3 * k for k in range(33)], headings=[0.0, 0.5, 1.6])),
    dict(name="when", body=when, space="network x goal lane x all histories of poses",
         quick=dict(nets=["chain", "two"], n=[1, 2, 3], spots=[(1, 0.0, 0.0), (1, 1.5, 0.0), (1, 0.2, 0.3), (0, 0.0, 0.0)], stamps=["float", "dec"]),
         thorough=dict(nets=["chain", "two", "bend"], n=[1, 2, 3, 4], spots=[(1, 0.0, 0.0), (1, 1.5, 0.0), (1, 0.2, 0.3), (0, 0.0, 0.0)], stamps=list(CONV))),
    dict(name="neighbours", body=neighbours, space="network x lane", args=dict(nets=list(NETS))),
]
