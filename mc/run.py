"""Runs the check of one property:  python -m mc.run C01 [--tier quick|thorough] [--harness NAME]"""
from __future__ import annotations

import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

from . import core

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get("DG_SRC", "/repo/src")


def load_known(prop: str) -> dict[str, str]:
    """key -> description of the findings listed for this property."""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):
                f = line[len("finding:"):].split(None, 2)
                if f[0] == f"property={prop}" and f[1].startswith("key="):
                    out[f[1][4:]] = f[2] if len(f) > 2 else ""
    return out


_BODY = None
_KNOWN = ()
_DEV = None
_DEADLINE = None


def _work(task):
    idx, prefix = task
    st = core.Stats()
    try:
        v, complete = core.subtree(_BODY, prefix, st, known=_KNOWN, dev_bound=_DEV, deadline=_DEADLINE)
        return idx, v, complete, st, None
    except BaseException as e:  # noqa
        return idx, None, False, st, "".join(traceback.format_exception(e))


def run_harness(h, tier, known, jobs, deadline):
    global _BODY, _KNOWN, _DEV, _DEADLINE
    kw = dict(h.get("args", {}))
    kw.update(h.get(tier, {}))
    dev = kw.pop("dev_bound", None)
    body = h["body"]
    if kw:
        inner = body
        body = lambda c, inner=inner, kw=kw: inner(c, **kw)  # noqa
    _BODY, _KNOWN, _DEV, _DEADLINE = body, tuple(known), dev, deadline
    t0 = time.time()
    width = h.get("width", 8 * jobs)
    tasks = list(enumerate(core.expand(body, width if jobs > 1 else 1, known=_KNOWN, dev_bound=dev)))
    total = core.Stats()
    viol = None
    complete = True
    if jobs > 1 and len(tasks) > 1:
        ctx = mp.get_context("fork")
        with ctx.Pool(min(jobs, len(tasks))) as pool:
            for idx, v, comp, st, err in pool.imap(_work, tasks, chunksize=1):
                total.merge(st)
                complete &= comp
                if err:
                    raise core.HarnessError(f"harness {h['name']}: {err}")
                if v is not None:
                    viol = v
                    pool.terminate()
                    break
    else:
        for task in tasks:
            idx, v, comp, st, err = _work(task)
            total.merge(st)
            complete &= comp
            if err:
                raise core.HarnessError(f"harness {h['name']}: {err}")
            if v is not None:
                viol = v
                break
    return total, viol, complete, time.time() - t0


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--harness", default=None)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("MC_JOBS", "8")))
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args(argv)
    prop = a.property
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    t0 = time.time()
    known = load_known(prop)
    try:
        import logging

        logging.disable(logging.CRITICAL)
        import warnings

        warnings.simplefilter("ignore")
        import dg_commons

        core.quiet()
        if not os.path.abspath(dg_commons.__file__).startswith(os.path.abspath(SRC) + "/"):
            raise core.HarnessError(f"dg_commons was imported from {dg_commons.__file__}, not from {SRC}")
        mod = importlib.import_module(f"checks.{prop.lower()}")
    except core.HarnessError:
        raise
    except Exception as e:
        loc = core._under_test(e.__traceback__)
        if not loc:
            raise
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        rp = os.path.join(VERIF, "replays", f"{prop}-import.json")
        json.dump(dict(property=prop, harness="import", message="".join(traceback.format_exception(e))), open(rp, "w"))
        print(f"the code under test cannot be imported: {e!r}")
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    budget = float(os.environ.get("MC_BUDGET", "780" if tier == "quick" else "5400"))
    deadline = t0 + budget
    harn = [h for h in mod.HARNESSES if a.harness in (None, h["name"])]
    per = {}
    total = core.Stats()
    viols = []
    complete = True
    for h in harn:
        st, v, comp, wall = run_harness(h, tier, known, a.jobs, deadline)
        complete &= comp
        per[h["name"]] = dict(
            space=h.get("space", ""),
            executions=st.executions,
            outside_domain=st.pruned,
            distinct_states=len(st.states),
            transitions=st.transitions,
            comparisons=st.compared,
            distinct_outcomes=len(st.outcomes),
            schedules_replayed_twice=st.replayed,
            counters=st.counters,
            maxima=st.maxima,
            exhausted=comp and v is None,
            wall_s=round(wall, 2),
        )
        if h.get("bounds"):
            per[h["name"]]["bounds"] = h["bounds"]
        # states of different harnesses are different objects
        total.executions += st.executions
        total.transitions += st.transitions
        total.compared += st.compared
        total.states |= {core.h64((h["name"], s)) for s in st.states} if len(st.states) < 300000 else st.states
        total.known.update(st.known)
        total.samples.extend([{"harness": h["name"], "choices": s} for s in st.samples[:2]])
        print(
            f"[{prop}] {h['name']}: executions={st.executions} states={len(st.states)} transitions={st.transitions} "
            f"comparisons={st.compared} outcomes={len(st.outcomes)} pruned={st.pruned} replayed={st.replayed} "
            f"{st.counters or ''} {st.maxima or ''} "
            f"{'exhausted' if comp and v is None else ('VIOLATED' if v else 'CAPPED')} {wall:.1f}s",
            flush=True,
        )
        if v is not None:
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            rp = os.path.join(VERIF, "replays", f"{prop}-{h['name']}.json")
            json.dump(dict(property=prop, harness=h["name"], tier=tier, **v), open(rp, "w"), indent=1, default=str)
            viols.append((h["name"], v, rp))
    for k, msg in sorted(total.known.items()):
        print(f"KNOWN-FINDING: property={prop} {known.get(k, k)}")
    ev = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level="model_checking",
        coverage=dict(
            states=len(total.states),
            transitions=total.transitions,
            traces_validated_against_impl=total.executions,
            comparisons_with_reference=total.compared,
            samples=total.samples[:12] or ["none"],
            exhaustive=bool(complete and not viols),
            harnesses=per,
            known_findings_seen=sorted(total.known),
        ),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
        wall_s=round(time.time() - t0, 2),
        violations=len(viols),
    )
    if not a.no_evidence:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w"), indent=1, default=str)
    for name, v, rp in viols:
        print(f"--- {prop}/{name}: {v['key']}: {v['message']}")
        print("    choices: " + "; ".join(v["values"]))
        print(f"VIOLATION property={prop} replay={rp}", flush=True)
    if viols:
        return 1
    print(f"[{prop}] {'held on everything explored' if complete else 'held on the part explored (CAPPED)'} "
          f"({time.time() - t0:.1f}s)")
    return 0


if __name__ == "__main__":
    sys.exit(main())
