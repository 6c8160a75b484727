#!/usr/bin/env python3
"""Regenerates properties.jsonl, MANIFEST.json and the generated part of DESIGN.md from props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import P

with open(V + "/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], state=p["state"],
                         mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                         observe_at=p["observe"], hook_needed=None))) + "\n")
checks, na = [], []
for p in P:
    if not os.path.exists(V + "/harness/" + p["h"]["src"]):
        na.append(dict(property=p["id"], reason="harness not built yet"))
        continue
    checks.append(dict(
        property=p["id"], quick_cmd="python3 run.py %s quick" % p["id"],
        thorough_cmd="python3 run.py %s thorough" % p["id"],
        evidence_file="evidence/%s.json" % p["id"],
        technique=p["technique"] or ("property-based testing (choice-sequence generation with shrinking)" +
                                     (", coverage-guided fuzzing" if p["h"].get("fuzz") else "") +
                                     (", ThreadSanitizer" if p["h"].get("tsan") else ", ASan+UBSan")),
        level="exploration", level_note=p["note"]))
json.dump(dict(version=1, setup_cmd="python3 -c \"import sys; sys.exit(0)\"", checks=checks, not_applicable=na,
               notes="Checks build their harness with /repo's current sources; see DESIGN.md."),
          open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
d = open(V + "/DESIGN.md").read() if os.path.exists(V + "/DESIGN.md") else ""
A, B = "<!-- BEGIN GENERATED -->\n", "<!-- END GENERATED -->\n"
body = "".join("### %s %s\n\n%s\n\n*Decided by:* %s\n\n*Strength / limits:* %s Quick: %s random cases%s; thorough: %s.\n\n" % (
    p["id"], p["title"], p["statement"], p["design"], p["note"], p["h"]["quick"],
    (" + %d libFuzzer runs per core" % p["h"]["fuzz"]) if p["h"].get("fuzz") else "", p["h"]["thorough"]) for p in P)
if A in d:
    d = d[:d.index(A) + len(A)] + body + d[d.index(B):]
    open(V + "/DESIGN.md", "w").write(d)
