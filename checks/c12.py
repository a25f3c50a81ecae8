"""C12 - sampled sequences: construction, lookups and derived sequences, over all small histories."""
from decimal import Decimal as D
from fractions import Fraction as F

import numpy as np
from zuper_commons.types import ZValueError

from dg_commons import DgSampledSequence, DgSampledSequenceBuilder, UndefinedAtTime, iterate_with_dt

ASSUMPTIONS = ["timestamps are finite numbers of one kind, Decimal or int/float",
               "interpolated values are compared up to rounding"]


def exact(t):
    return F(t)


GRIDS = {
    "int": [-1, 0, 1, 2, 5], "float": [-0.5, 0.0, 0.1, 0.30000000000000004, 2.5],
    "Decimal": [D("-0.5"), D("0"), D("0.1"), D("0.3"), D("2.5")], "mixed": [-1, 0.0, 0.5, 1, 2.25],
}
QUERIES = {
    "int": [-2, -1, 0, 1, 2, 3, 5, 6, 0.5, 1.75, D("4"), D("1.5")],
    "float": [-1.0, -0.5, 0.0, 0, 0.05, 0.1, 0.2, 0.3, 0.30000000000000004, 1.0, 2.5, 3.0, D("0.1"), D("0.25"), D("9")],
    "Decimal": [D("-1"), D("-0.5"), D("0"), D("0.05"), D("0.1"), D("0.3"), D("1"), D("2.5"), D("3"), 0, 0.1, 0.25, 2.5, 7.0],
    "mixed": [-2, -1, -0.5, 0, 0.25, 0.5, 1, 1.0, 2, 2.25, 2.5, D("0.5"), D("1.75")],
}


def vals(kind, n):
    raw = [3.0, -1.5, 0.25, 8.0, 2.0][:n]
    if kind == "array":
        return [np.array([v, 10 - v]) for v in raw]
    return [int(v * 4) for v in raw] if kind == "int" else raw


def veq(a, b):
    return bool(np.all(np.asarray(a) == np.asarray(b)))


def lookups(c, grids, maxlen, vkinds):
    g = c.pick(sorted(grids), "grid")
    n = c.choose(maxlen, "len") + 1
    ts = [c.pick(GRIDS[g], f"t{i}") for i in range(n)]
    vk = c.pick(vkinds, "values")
    vs = vals(vk, n)
    ts_in, vs_in = list(ts), list(vs)
    legal = all(exact(a) < exact(b) for a, b in zip(ts, ts[1:]))
    try:
        s = DgSampledSequence[float](ts_in, vs_in)
    except ZValueError:
        c.check(not legal, "rejects", lambda: f"strictly increasing timestamps {ts} were refused")
        c.count("refused")
        c.outcome(("refused", n))
        return
    c.check(legal, "accepts", lambda: f"timestamps {ts} were accepted")
    ref = [(exact(t), v) for t, v in zip(ts, vs)]
    ts_in.append(99), vs_in.append(99)
    c.check(tuple(s.timestamps) == tuple(ts) and len(s) == n, "aliases", "the sequence changed with the list it was built from")
    c.check(s.get_start() == ts[0] and s.get_end() == ts[-1] and tuple(s.get_sampling_points()) == tuple(ts), "extrema", "")
    for q in QUERIES[g]:
        fq = exact(q)
        c.compared(3)
        hit = [v for t, v in ref if t == fq]
        prev = [v for t, v in ref if t <= fq]
        try:
            got = s.at(q)
            c.check(bool(hit) and veq(got, hit[0]), "at", lambda: f"at({q!r}) of {ts} gave {got}")
        except UndefinedAtTime:
            c.check(not hit, "at", lambda: f"at({q!r}) of {ts} is undefined")
        try:
            got = s.at_or_previous(q)
            c.check(bool(prev) and veq(got, prev[-1]), "previous", lambda: f"at_or_previous({q!r}) of {ts} gave {got}")
        except UndefinedAtTime:
            c.check(not prev, "previous", lambda: f"at_or_previous({q!r}) of {ts} is undefined")
        got = s.at_interp(q)
        if not prev:
            want = ref[0][1]
        elif len(prev) == n:
            want = ref[-1][1]
        else:
            (ta, va), (tb, vb) = ref[len(prev) - 1], ref[len(prev)]
            w = float((fq - ta) / (tb - ta))
            want = np.asarray(va) * (1 - w) + np.asarray(vb) * w
        c.close(np.asarray(got, float), np.asarray(want, float), "interp", lambda: f"at_interp({q!r}) of {ts}", tol=1e-9)
    for i, a in enumerate(QUERIES[g]):
        for b in QUERIES[g][i:]:
            lo, hi = (a, b) if exact(a) <= exact(b) else (b, a)
            sub = s.get_subsequence(lo, hi)
            want = [(t, v) for t, v in zip(ts, vs) if exact(lo) <= exact(t) <= exact(hi)]
            c.compared()
            c.check(list(sub.timestamps) == [t for t, _ in want] and all(veq(x, y) for x, (_, y) in zip(sub.values, want))
                    and len(sub) == len(want), "subsequence", lambda: f"[{lo!r},{hi!r}] of {ts} gave {sub.timestamps}")
    for dt in (0.5, -0.75, -400, 0):
        dt = D(dt) if g == "Decimal" else dt
        sh = s.shift_timestamps(dt)
        c.check(list(sh.timestamps) == [t + dt for t in ts] and all(veq(x, y) for x, y in zip(sh.values, vs)), "shift", str(sh))
    tr = s.transform_values(lambda v: None if veq(v, vs[0]) else v * 2)
    c.check(list(tr.timestamps) == ts[1:] and all(veq(x, np.asarray(y) * 2) for x, y in zip(tr.values, vs[1:])), "transform",
            lambda: f"{tr}")
    falsy = [False, 0, None, "", 0.0]
    tr = s.transform_values(lambda v, vs=list(vs): next(falsy[i] for i, w in enumerate(vs) if veq(v, w)))
    c.check(list(tr.timestamps) == [t for i, t in enumerate(ts) if i != 2] and
            [repr(v) for v in tr.values] == [repr(falsy[i]) for i in range(n) if i != 2], "transform-falsy", lambda: f"{tr}")
    c.check([t for t, _ in s] == ts and all(veq(v, w) for (_, v), w in zip(s, vs)), "iterate", "")
    its = list(iterate_with_dt(s))
    c.check([(i.t0, i.t1) for i in its] == [(float(a), float(b)) for a, b in zip(ts, ts[1:])], "dt", lambda: f"{its}")
    for k, i in enumerate(its):
        c.close(i.dt, float(exact(ts[k + 1]) - exact(ts[k])), "dt")
        c.check(veq(i.v0, vs[k]) and veq(i.v1, vs[k + 1]), "dt", lambda: f"{its}")
    c.check(len(list(iterate_with_dt(DgSampledSequence(ts, vs)))) == n - 1, "unparametrized", "")
    if vk != "array":
        twin = DgSampledSequence[float](tuple(ts), tuple(vs))
        c.check(twin == s and hash(twin) == hash(s), "equality", "two sequences with the same samples differ")
        if n > 1:
            c.check(s != DgSampledSequence[float](ts[:-1], vs[:-1]), "equality", "a prefix compares equal")
            c.check(s != DgSampledSequence[float](ts, vs[:-1] + [77.0]), "equality", "other values compare equal")
    for attr in ("timestamps", "values"):
        try:
            setattr(s, attr, [1])
            c.fail("immutable", f"{attr} can be assigned")
        except RuntimeError:
            pass
    try:
        DgSampledSequence[float](ts, vs + [1.0])
        c.fail("length", "more values than timestamps were accepted")
    except ZValueError:
        pass
    c.state((g, n, vk, [float(t) for t in ts]))
    c.outcome((g, n, vk, len(its)))


def mixing(c):
    """Decimals never mix with other numbers"""
    kinds = {"int": (0, 1, 2), "float": (0.0, 1.0, 2.0), "Decimal": (D(0), D(1), D(2))}
    ks = [c.pick(sorted(kinds), f"k{i}") for i in range(3)]
    ts = [kinds[k][i] for i, k in enumerate(ks)]
    bad = "Decimal" in ks and len(set(ks)) > 1
    try:
        DgSampledSequence[float](ts, [0, 0, 0])
        c.check(not bad, "mixed", lambda: f"accepted {ts}")
    except (ZValueError, TypeError):
        c.check(bad, "mixed", lambda: f"refused {ts}")
    c.compared()
    c.state(ks)
    c.outcome((bad, len(set(ks))))


def builder(c, grids, depth):
    """every history of additions, with sequences taken in between"""
    g = c.pick(sorted(grids), "grid")
    param = c.flag("parametrized")
    b = DgSampledSequenceBuilder[float]() if param else DgSampledSequenceBuilder()
    other = DgSampledSequenceBuilder[float]()
    ref, taken = [], []
    for k in range(depth):
        op = c.pick(("add", "take"), f"op{k}")
        if op == "take":
            s = b.as_sequence()
            c.check(isinstance(s, DgSampledSequence), "type", str(type(s)))
            taken.append((s, list(ref)))
        else:
            t, v = c.pick(GRIDS[g], f"t{k}"), (float(k) if param else [None, False, 0.0, "", 4.0][k % 5])
            ok = not ref or exact(t) > exact(ref[-1][0])
            try:
                b.add(t, v)
                c.check(ok, "accepts", lambda: f"{t} after {ref}")
                ref.append((t, v))
            except ZValueError:
                c.check(not ok, "rejects", lambda: f"{t} after {ref}")
        c.check(len(b) == len(ref), "len", lambda: f"{len(b)} after {ref}")
        c.step()
        c.state((g, [float(t) for t, _ in ref], len(taken)))
    if c.flag("another_one"):
        other.add(GRIDS[g][0], 0.0)
        c.check(list(other.as_sequence()) == [(GRIDS[g][0], 0.0)], "shared", "two builders share their samples")
        other = DgSampledSequenceBuilder[float]()
    taken.append((b.as_sequence(), list(ref)))
    for s, want in taken:
        c.compared()
        c.check(list(s) == want, "content", lambda: f"a sequence taken from the builder is {list(s)}, expected {want}")
    c.check(len(other) == 0, "shared", "two builders share their samples")
    c.outcome((g, len(ref), len(taken)))


def long(c, lens, stamps):
    """as many samples as a long simulation has"""
    n, kind = c.pick(lens, "samples"), c.pick(stamps, "timestamps")
    ts = [{"dec": lambda i: D(i) / 20, "float": lambda i: 0.05 * i, "int": lambda i: i - 7}[kind](i) for i in range(n)]
    b = DgSampledSequenceBuilder[float]()
    for i, t in enumerate(ts):
        b.add(t, float(i * i % 97))
    s = b.as_sequence()
    c.check(len(b) == n and list(s) == [(t, float(i * i % 97)) for i, t in enumerate(ts)], "long-content", lambda: f"{n} samples were added, there are {len(s)}")
    half = (ts[1] - ts[0]) / 2
    for i, t in enumerate(ts):
        v, w = s.values[i], s.values[min(i + 1, n - 1)]
        c.check(s.at(t) == v and s.at_or_previous(t) == v and s.at_or_previous(t + half) == v, "long-lookup", lambda: f"at {t}")
        c.close(s.at_interp(t + half), (v + w) / 2, "long-interp", lambda: f"after {t}", tol=1e-6)
    sub_ = s.get_subsequence(ts[n // 3], ts[-2])
    c.check(list(sub_) == list(s)[n // 3:n - 1], "long-subsequence", "")
    c.check(list(s.shift_timestamps(ts[1] - ts[0]).values) == list(s.values), "long-shift", "")
    c.step(n)
    c.compared(3 * n)
    c.state((n, kind))
    c.outcome((n, kind))


HARNESSES = [
    dict(name="long", body=long, space="lengths of long sequences x kind of timestamps",
         quick=dict(lens=[137, 1100], stamps=["dec", "float", "int"]), thorough=dict(lens=[137, 1100, 5000], stamps=["dec", "float", "int"])),
    dict(name="lookups", body=lookups, space="all tuples of timestamps x kind of number x kind of value x all queries",
         quick=dict(grids=list(GRIDS), maxlen=4, vkinds=["float", "array"]),
         thorough=dict(grids=list(GRIDS), maxlen=5, vkinds=["float", "array", "int"])),
    dict(name="mixing", body=mixing, space="all combinations of kinds of timestamps", quick={}, thorough={}),
    dict(name="builder", body=builder, space="all histories of additions and readings",
         quick=dict(grids=list(GRIDS), depth=4), thorough=dict(grids=list(GRIDS), depth=5)),
]
