"""Bounded exhaustive exploration of the real code.

Two engines, both enumerative (no sampling, no solver):

* stateless choice-tree search (`explore`): a harness body asks a `Chooser` for every decision (input, schedule,
  environment answer).  All choice sequences are enumerated depth first; an optional deviation bound limits how many
  choices marked `dev=True` may differ from their default.
* explicit-state search (`bfs`): a frontier of event histories; every successor is obtained by calling the real code, and
  states are merged on a canonical key.

A harness reports a violation by `c.fail(key, message)` / `c.check(cond, key, message)`.  Any exception that leaves a
harness body is a violation too (the code under test blew up on a legal input), except `HarnessError`.
"""
from __future__ import annotations

import json
import os
import signal
import sys
import time
import traceback
from hashlib import blake2b
from typing import Any, Callable, Iterable, Optional, Sequence


def quiet():
    """No log output of the code under test (its loggers are not the standard ones)."""
    import dg_commons
    import dg_commons.sim

    for lg in (dg_commons.logger, dg_commons.sim.logger):
        for n in ("debug", "info", "warn", "warning", "error"):
            try:
                setattr(lg, n, lambda *a, **k: None)
            except Exception:  # noqa
                pass


class HarnessError(Exception):
    """The harness itself is wrong (never reported as a violation)."""


class Violation(Exception):
    def __init__(self, key: str, message: str):
        super().__init__(f"{key}: {message}")
        self.key = key
        self.message = message


class Timeout(BaseException):
    pass


class _Probe(BaseException):
    def __init__(self, n: int, label: str):
        self.n = n
        self.label = label


class Prune(Exception):
    """Raised by a body for a combination that is outside the documented domain (counted, not checked)."""


def h64(obj: Any) -> int:
    return int.from_bytes(blake2b(repr(obj).encode(), digest_size=8).digest(), "big")


def rnd(x: Any, nd: int = 6) -> Any:
    """Canonical form for floats inside keys."""
    if isinstance(x, float):
        y = round(x, nd)
        return 0.0 if y == 0 else y
    if isinstance(x, (list, tuple)):
        return tuple(rnd(y, nd) for y in x)
    if isinstance(x, dict):
        return tuple(sorted((str(k), rnd(v, nd)) for k, v in x.items()))
    if hasattr(x, "tolist"):
        return rnd(x.tolist(), nd)
    return x


class Stats:
    def __init__(self):
        self.executions = 0
        self.pruned = 0
        self.transitions = 0
        self.compared = 0
        self.states: set[int] = set()
        self.outcomes: set[int] = set()
        self.samples: list[Any] = []
        self.replayed = 0
        self.counters: dict[str, int] = {}
        self.maxima: dict[str, float] = {}
        self.known: dict[str, str] = {}

    def merge(self, o: "Stats"):
        self.executions += o.executions
        self.pruned += o.pruned
        self.transitions += o.transitions
        self.compared += o.compared
        self.states |= o.states
        self.outcomes |= o.outcomes
        self.replayed += o.replayed
        for k, v in o.counters.items():
            self.counters[k] = self.counters.get(k, 0) + v
        for k, v in o.maxima.items():
            self.maxima[k] = max(self.maxima.get(k, v), v)
        self.known.update(o.known)
        if len(self.samples) < 6:
            self.samples.extend(o.samples[: 6 - len(self.samples)])


class Chooser:
    """Source of all nondeterminism of a harness body."""

    def __init__(self, prefix: Sequence[int], stats: Stats, probe: bool = False, expected=None, dev_bound=None,
                 known: Sequence[str] = ()):
        self.prefix = list(prefix)
        self.trace: list[tuple[str, int, int, bool]] = []  # label, n, chosen, dev
        self.values: list[str] = []
        self.stats = stats
        self.probe = probe
        self.expected = expected
        self.dev_bound = dev_bound
        self.digest: list[int] = []
        self._known = known

    def choose(self, n: int, label: str = "", dev: bool = False) -> int:
        if n < 1:
            raise HarnessError(f"choice {label!r} with {n} alternatives")
        i = len(self.trace)
        if dev and self.dev_bound is not None and sum(1 for t in self.trace if t[3] and t[2]) >= self.dev_bound:
            n = 1
        if i < len(self.prefix):
            v = self.prefix[i]
            if self.expected is not None and i < len(self.expected) and self.expected[i] != (label, n):
                raise Violation(
                    "nondeterminism",
                    f"replaying a prefix diverged at choice {i}: expected {self.expected[i]}, got {(label, n)}",
                )
            if v >= n:
                raise Violation("nondeterminism", f"replay choice {i} ({label}) out of range: {v} of {n}")
        else:
            if self.probe:
                raise _Probe(n, label)
            v = 0
        self.trace.append((label, n, v, dev))
        return v

    def pick(self, seq: Sequence[Any], label: str = "", dev: bool = False) -> Any:
        seq = list(seq)
        v = seq[self.choose(len(seq), label, dev)]
        r = repr(v)
        self.values.append(f"{label}={r if len(r) < 160 else r[:157] + '...'}")
        return v

    def flag(self, label: str = "", dev: bool = False) -> bool:
        return self.pick((False, True), label, dev)

    # -- observations ------------------------------------------------------------------------------------------
    def state(self, key: Any):
        k = h64(rnd(key))
        self.stats.states.add(k)
        self.digest.append(k)

    def step(self, n: int = 1):
        self.stats.transitions += n

    def outcome(self, key: Any):
        k = h64(rnd(key))
        self.stats.outcomes.add(k)
        self.digest.append(k)

    def count(self, name: str, n: int = 1):
        self.stats.counters[name] = self.stats.counters.get(name, 0) + n

    def maximum(self, name: str, v: float):
        self.stats.maxima[name] = max(self.stats.maxima.get(name, v), float(v))

    def compared(self, n: int = 1):
        """n observations of the implementation were compared with the reference model."""
        self.stats.compared += n

    # -- verdicts ----------------------------------------------------------------------------------------------
    def fail(self, key: str, message: Any):
        message = message() if callable(message) else message
        if key in self._known:
            self.stats.known.setdefault(key, message)
            return
        raise Violation(key, message)

    def check(self, cond: bool, key: str, message: Any = ""):
        if not cond:
            self.fail(key, message() if callable(message) else str(message))

    def close(self, a, b, key: str, message: Any = "", tol: float = 1e-6, rel: float = 1e-9):
        import numpy as np

        self.stats.compared += 1
        aa = np.asarray(a, dtype=float)
        bb = np.asarray(b, dtype=float)
        if aa.shape != bb.shape:
            self.fail(key, f"{message() if callable(message) else message} got {a} expected {b} (shape)")
            return
        ok = np.abs(aa - bb) <= tol + rel * np.abs(bb)
        ok |= (aa == bb)
        if not bool(np.all(ok)):
            self.fail(key, f"{message() if callable(message) else message} got {aa.tolist()} expected {bb.tolist()}")


def _under_test(tb) -> str:
    """Last frame in the code under test, for messages."""
    loc = ""
    for fr in traceback.extract_tb(tb):
        if "/dg_commons/" in fr.filename:
            loc = f"{fr.filename.split('/dg_commons/')[-1]}:{fr.name}"
    return loc


EXEC_LIMIT_S = float(os.environ.get("MC_EXEC_LIMIT", "150"))


def _alarm(signum, frame):
    raise Timeout()


def run_body(body: Callable[[Chooser], None], c: Chooser):
    """Runs one execution; turns every escape of the code under test into a Violation."""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, EXEC_LIMIT_S, 1.0)
    try:
        body(c)
    except (Violation, HarnessError, Prune):
        raise
    except Timeout:
        raise Violation("no-termination", f"execution did not end within {EXEC_LIMIT_S:.0f} s") from None
    except (MemoryError,):
        raise
    except Exception as e:
        loc = _under_test(e.__traceback__)
        key = f"exception:{type(e).__name__}:{loc}"
        c.fail(key, f"{type(e).__name__}: {e} at {loc}\n" + "".join(traceback.format_exception(e)[-6:]))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def expand(body, width: int, known=(), dev_bound=None) -> list[list[int]]:
    """Prefixes of the choice tree that partition it, at least `width` of them when the tree is that big."""
    done: list[list[int]] = []
    frontier: list[list[int]] = [[]]
    while frontier and len(done) + len(frontier) < width:
        nxt: list[list[int]] = []
        for p in frontier:
            c = Chooser(p, Stats(), probe=True, known=known, dev_bound=dev_bound)
            try:
                run_body(body, c)
                done.append(p)
            except _Probe as e:
                nxt.extend([p + [i] for i in range(e.n)])
            except (Violation, Prune):
                done.append(p)
        frontier = nxt
    return sorted(done + frontier)


def subtree(body, prefix: Sequence[int], stats: Stats, known=(), dev_bound=None, deadline=None, recheck=97,
            max_samples=2) -> tuple[Optional[dict], bool]:
    """Enumerates every execution whose choices start with `prefix`.  Returns (violation or None, complete)."""
    stack = list(prefix)
    expected: list[tuple[str, int]] = []
    base = len(prefix)
    while True:
        if deadline is not None and time.time() > deadline:
            return None, False
        c = Chooser(stack, stats, expected=expected, known=known, dev_bound=dev_bound)
        try:
            run_body(body, c)
            stats.executions += 1
            stats.transitions += 1  # the execution itself; finer steps are added by the body
            if len(c.trace) > 0 and len(stats.samples) < max_samples:
                stats.samples.append(c.values[:40])
            if recheck and stats.executions % recheck == 1:
                s2 = Stats()
                c2 = Chooser([t[2] for t in c.trace], s2, expected=[(t[0], t[1]) for t in c.trace], known=known,
                             dev_bound=dev_bound)
                run_body(body, c2)
                stats.replayed += 1
                if c2.digest != c.digest:
                    raise Violation("nondeterminism", "the same schedule gave different observations when run twice")
        except Prune:
            stats.pruned += 1
        except Violation as v:
            return (
                dict(key=v.key, message=v.message, choices=[t[2] for t in c.trace], values=c.values),
                True,
            )
        tr = c.trace
        if len(tr) < base:
            return None, True
        # next schedule
        i = len(tr) - 1
        while i >= base and tr[i][2] + 1 >= tr[i][1]:
            i -= 1
        if i < base:
            return None, True
        stack = [t[2] for t in tr[:i]] + [tr[i][2] + 1]
        expected = [(t[0], t[1]) for t in tr[: i + 1]]
    

# ---------------------------------------------------------------------------------------------------------------------
def bfs(c: Chooser, init, events: Callable[[Any], Iterable[Any]], step: Callable[[Any, Any], Any],
        canon: Callable[[Any], Any], depth: int, max_states: int = 2_000_000) -> dict:
    """Explicit-state breadth-first search.  A node is whatever `init`/`step` return (the harness decides whether it is
    a live object pair impl+model or a history that is rebuilt).  `step` itself compares implementation and model and
    reports violations through `c`.  Counts go to the chooser's statistics."""
    seen = {canon(init)}
    frontier = [((), init)]
    d = 0
    trans = 0
    full = True
    while frontier and d < depth:
        nxt = []
        for hist, node in frontier:
            for ev in events(node):
                trans += 1
                try:
                    new = step(node, ev)
                except Violation as v:
                    raise Violation(v.key, f"after history {list(hist) + [ev]}: {v.message}") from None
                if new is None:
                    continue
                k = canon(new)
                if k in seen:
                    continue
                if len(seen) >= max_states:
                    full = False
                    continue
                seen.add(k)
                nxt.append((hist + (ev,), new))
        frontier = nxt
        d += 1
    for k in seen:
        c.stats.states.add(h64(k))
    c.step(trans)
    c.digest.append(h64((len(seen), trans, d)))
    return dict(states=len(seen), transitions=trans, depth=d, closed=not frontier, complete=full)
