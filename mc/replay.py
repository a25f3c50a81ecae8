"""Re-runs one recorded counterexample without the explorer:  python -m mc.replay replays/C01-x.json"""
import importlib
import json
import logging
import sys
import warnings

from . import core


def main():
    r = json.load(open(sys.argv[1]))
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    import dg_commons  # noqa

    core.quiet()
    mod = importlib.import_module(f"checks.{r['property'].lower()}")
    h = [h for h in mod.HARNESSES if h["name"] == r["harness"]][0]
    kw = dict(h.get("args", {}))
    kw.update(h.get(r.get("tier", "quick"), {}))
    dev = kw.pop("dev_bound", None)
    c = core.Chooser(r["choices"], core.Stats(), dev_bound=dev)
    try:
        core.run_body(lambda c: h["body"](c, **kw), c)
    except core.Violation as v:
        print("\n".join(c.values))
        print(f"reproduced: {v.key}: {v.message}")
        return 1
    print("did not reproduce")
    return 0


if __name__ == "__main__":
    sys.exit(main())
