"""Writes properties.jsonl, MANIFEST.json and the property table of DESIGN.md from tools/props.py."""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from tools.props import PROPS  # noqa

NOT_APPLICABLE = []
TECH = "explicit-state model checking: exhaustive depth-first enumeration of bounded executions of the real code against a reference model"


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["quant"]),
                why_tests_cant=p["why"],
                anchors=dict(files=p["files"], state=p["state"], mechanism=p["mech"], observe_at=p["observe"], hook_needed=None))) + "\n")
    checks = [dict(property=p["id"], quick_cmd=f"bin/check {p['id']} quick", thorough_cmd=f"bin/check {p['id']} thorough",
                   technique=TECH, level="model_checking",
                   level_note=p["note"] or "the implementation itself is the transition system: every explored trace is an execution of /repo's code; "
                                           "bounds and counts are in the evidence file")
              for p in PROPS if os.path.exists(os.path.join(V, "checks", p["id"].lower() + ".py"))]
    m = dict(version=1, setup_cmd="bash bin/setup", checks=checks, not_applicable=NOT_APPLICABLE)
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    d = os.path.join(V, "DESIGN.md")
    if os.path.exists(d):
        t = open(d).read()
        a, b = "<!-- properties -->\n", "<!-- /properties -->"
        i, j = t.index(a) + len(a), t.index(b)
        body = "".join(f"- **{p['id']} {p['title']}.** {p['design']} Tests cannot: {p['why']}\n" for p in PROPS)
        open(d, "w").write(t[:i] + body + t[j:])


main()
