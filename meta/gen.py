#!/usr/bin/env python3
"""Regenerates properties.jsonl, MANIFEST.json and the per-property section of DESIGN.md from meta/props.py and specs.py."""
import json, os, sys
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path[:0] = [D, os.path.join(D, "meta")]
from props import PROPS
from specs import SPECS
keys = ["id", "title", "statement", "quantifier", "why_tests_cant", "anchors"]
with open(os.path.join(D, "properties.jsonl"), "w") as f:
    for p in PROPS: f.write(json.dumps({k: p[k] for k in keys}) + "\n")
checks, na = [], []
for p in PROPS:
    if p["na"]: na.append(dict(property=p["id"], reason=p["na"])); continue
    checks.append(dict(property=p["id"], quick_cmd="python3 check.py %s --tier quick" % p["id"], thorough_cmd="python3 check.py %s --tier thorough" % p["id"], technique="solver-based checking: bounded symbolic execution of the real code's LLVM IR, assertions decided by z3", level="model_checking", level_note=p["level_note"]))
json.dump(dict(version=1, setup_cmd="bash engine/build.sh build/symx", checks=checks, not_applicable=na, notes="All checks rebuild the encoding from /repo's working tree on every run; no hooks in /repo are needed."), open(os.path.join(D, "MANIFEST.json"), "w"), indent=1)
out = []
for p in PROPS:
    s = SPECS.get(p["id"], {}); q = sum(c.get("tier", "quick") == "quick" for c in s.get("cases", []))
    if p["na"]: out.append("### %s %s\nNot claimed: %s\n" % (p["id"], p["title"], p["na"])); continue
    out.append("### %s %s\n%s\n\n- Harness: %s (%d quick cases, %d in total)\n- Bounds: %s\n- Outside the bounds: %s\n" % (p["id"], p["title"], p["how"], ", ".join("harness/" + h for h in s["harness"]), q, len(s["cases"]), s["bounds"], s["outside"]))
dp = os.path.join(D, "DESIGN.md")
if os.path.exists(dp):
    t = open(dp).read(); a, b = "<!-- properties:begin -->\n", "<!-- properties:end -->"
    rows = []
    for m in sorted(__import__("glob").glob(os.path.join(D, "seeded/*/meta.json"))):
        j = json.load(open(m)); rows.append("- `%s` — %s — %s: %s" % (os.path.basename(os.path.dirname(m)), j["property"], j.get("caught", "caught"), j["needs"]))
    a, b = "<!-- seeds:begin -->\n", "<!-- seeds:end -->"; t = t[:t.index(a) + len(a)] + "\n".join(rows) + "\n" + t[t.index(b):]
    a, b = "<!-- properties:begin -->\n", "<!-- properties:end -->"
    t = t[:t.index(a) + len(a)] + "\n".join(out) + t[t.index(b):]; open(dp, "w").write(t)
ids = [p["id"] for p in PROPS]; assert len(set(ids)) == len(ids)
for p in PROPS: assert len(p["title"]) <= 80, p["id"]
