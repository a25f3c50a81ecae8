"""writes the table of planted bugs into DESIGN.md (not used by any check)"""
import json
import pathlib
import re

V = pathlib.Path(__file__).resolve().parent.parent
rows = []
for d in (V / "seeded").iterdir():
    m = json.loads((d / "meta.json").read_text())
    rows.append((m["property"], d.name, m["what_it_breaks"], m["needs"]))
out = "\n".join(f"| {p} | {i} | {w} | {n} |" for p, i, w, n in sorted(rows))
f = V / "DESIGN.md"
s = f.read_text()
s = re.sub(r"(<!-- seeded -->\n).*?(<!-- /seeded -->)", lambda m: m[1] + "| caught by | change | what it breaks | what it needs |\n|---|---|---|---|\n" + out + "\n" + m[2], s, flags=re.S)
f.write_text(s)
