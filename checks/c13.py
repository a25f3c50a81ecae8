"""C13 - operations on sequences against exact rational arithmetic."""
from decimal import Decimal as D
from fractions import Fraction as F

from dg_commons import DgSampledSequence, seq_accumulate
from dg_commons.seq.seq_op import find_crossings, seq_differentiate, seq_integrate

ASSUMPTIONS = ["results are compared up to rounding (1e-9)",
               "nothing is required of a sequence that only touches the threshold without crossing it"]
STEPS = {"int": [1, 2, 5], "float": [0.1, 1.5, 0.25], "Decimal": [D("0.1"), D("1.5"), D("2")]}
START = {"int": [0, -3], "float": [0.0, 2.7], "Decimal": [D(0), D("2.7")]}


def body(c, maxlen, values, thresholds, scales):
    kind = c.pick(sorted(STEPS), "kind")
    n = c.choose(maxlen, "len") + 1
    param = c.flag("parametrized")
    t = c.pick(START[kind], "t0")
    ts, vs = [t], [c.pick(values, "v0")]
    dts = c.pick([(0, 1, 2, 1, 0), (2, 2, 1, 0, 1)], "steps")
    scale = c.pick(scales, "scale")
    if scale != 1:  # tiny values at long intervals
        vs = [vs[0] * scale]
        values = [v * scale for v in values]
        thresholds = [h * scale for h in thresholds]
        long = D(1000) if kind == "Decimal" else 1000
    else:
        long = 1
    for i in range(1, n):
        t = t + STEPS[kind][dts[i - 1]] * long
        ts.append(t)
        vs.append(c.pick(values, f"v{i}"))
    s = DgSampledSequence[float](ts, vs) if param else DgSampledSequence(ts, vs)
    ft, fv = [F(t) for t in ts], [F(v) for v in vs]
    what = lambda: f"{list(zip(ts, vs))}"
    acc = seq_accumulate(s)
    c.check(acc.timestamps == tuple(ts), "accumulate", what)
    c.close(list(acc.values), [float(sum(fv[:i + 1])) for i in range(n)], "accumulate", what, tol=1e-9)
    integ = seq_integrate(s)
    if n > 1:
        want, tot = [], F(0)
        for i in range(n - 1):
            tot += (fv[i] + fv[i + 1]) / 2 * (ft[i + 1] - ft[i])
            want.append(float(tot))
        c.close([float(t) for t in integ.timestamps], [float(t) for t in ts[1:]], "integrate", what)
        c.close(list(integ.values), want, "integrate", what, tol=1e-9)
        dif = seq_differentiate(s)
        c.close([float(t) for t in dif.timestamps], [float((a + b) / 2) for a, b in zip(ft, ft[1:])], "differentiate", what)
        c.close(list(dif.values), [float((b - a) / (q - p)) for a, b, p, q in zip(fv, fv[1:], ft, ft[1:])], "differentiate",
                what, tol=1e-9)
        # fundamental theorem: integrating the slope gives the increments back
        c.close(sum(float(v) * float(q - p) for v, p, q in zip(dif.values, ft, ft[1:])), float(fv[-1] - fv[0]), "inverse",
                what, tol=1e-9)
    for th in thresholds:
        got = find_crossings(s, th)
        f = F(th)
        must = []
        for i in range(n):
            for j in range(i + 1, n):
                if all(fv[k] == f for k in range(i + 1, j)) and (fv[i] - f) * (fv[j] - f) < 0:
                    if j == i + 1:
                        must.append((ft[i] + (f - fv[i]) / (fv[j] - fv[i]) * (ft[j] - ft[i]),) * 2)
                    else:
                        must.append((ft[i + 1], ft[j - 1]))
        c.compared(1 + len(must))
        g = [float(x) for x in got]
        c.check(all(a <= b + 1e-9 for a, b in zip(g, g[1:])), "crossings-order", lambda: f"{g} for {th} in {what()}")
        for x in g:
            k = max(i for i in range(n) if float(ft[i]) <= x + 1e-9)
            k = min(k, n - 2)
            w = (x - float(ft[k])) / float(ft[k + 1] - ft[k])
            v = float(fv[k]) + w * float(fv[k + 1] - fv[k])
            c.check(abs(v - th) < 1e-6 * scale, "not-a-crossing", lambda: f"{x} for {th} in {what()}: the value is {v}")
        for lo, hi in must:
            hits = [x for x in g if float(lo) - 1e-9 <= x <= float(hi) + 1e-9]
            c.check(len(hits) == 1, "crossings", lambda: f"crossing of {th} in [{float(lo)},{float(hi)}] reported {len(hits)} "
                                                         f"times ({g}): {what()}")
        if kind == "Decimal":
            c.check(all(isinstance(x, D) for x in got), "kind", lambda: f"{got}")
    c.step(n)
    c.state((kind, [float(t) for t in ts], vs))
    c.outcome((n, [float(x) for x in acc.values]))


def empty(c):
    for f in (seq_integrate, seq_differentiate):
        try:
            f(DgSampledSequence[float]([], []))
            c.fail("empty", "an empty sequence was accepted")
        except ValueError:
            pass
    one = DgSampledSequence[float]([c.pick((0, D(1)), "t")], [c.pick((0.0, 3.0), "v")])
    c.check(len(seq_differentiate(one)) == 0 and find_crossings(one, 1.0) == [], "single", "")
    c.compared(4)
    c.state(one.timestamps)
    c.outcome(one.values)


HARNESSES = [
    dict(name="operations", body=body, space="all sequences of values x kind of timestamps x spacing",
         quick=dict(maxlen=4, scales=[1, 2.0 ** -20], values=[-1.0, 0.0, 0.5, 3.0], thresholds=[0.0, 0.75, -2.0]),
         thorough=dict(maxlen=5, scales=[1, 2.0 ** -20], values=[-2.0, -1.0, 0.0, 0.5, 3.0], thresholds=[0.0, 0.75, -1.0, 0.1])),
    dict(name="empty", body=empty, space="degenerate sequences", quick={}, thorough={}),
]
