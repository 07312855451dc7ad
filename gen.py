#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from spec.py."""
import json
from spec import S
with open("/verif/properties.jsonl", "w") as f:
    for s in S:
        f.write(json.dumps({
            "id": s["id"], "title": s["title"], "statement": s["statement"],
            "quantifier": {"over": s["over"], "text": s["quant"]}, "why_tests_cant": s["why"],
            "anchors": {"files": s["files"], "mechanism": [{"name": a, "where": b} for a, b in s["mech"]],
                        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in s["state"]],
                        "observe_at": s["observe"] or ["public API of the library"], "hook_needed": None}}) + "\n")
m = {"version": 1, "setup_cmd": "true",
     "checks": [{"property": s["id"], "quick_cmd": "python3 check.py %s --tier quick" % s["id"],
                 "thorough_cmd": "python3 check.py %s --tier thorough" % s["id"],
                 "evidence_file": "evidence/%s.json" % s["id"],
                 "technique": s["cfg"].get("technique", "explicit-state bounded model checking of the real code: exhaustive enumeration of inputs/operation sequences/fault points against a reference model"),
                 "level": "model_checking",
                 "level_note": s["note"] + ". Bounds (quick): " + s["quick"] + ". Trusted: the reference model in harness/, gcc, AddressSanitizer."}
                for s in S],
     "not_applicable": [],
     "notes": "No hooks in /repo: the harnesses drive the public API; faults are injected by link-time wrapping of libc calls. Every check rebuilds the library from /repo's working tree."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
print(len(S), "properties")

# DESIGN.md and the "fixed:" lines of known_findings.txt
import os, subprocess
from design_text import HEAD, ORACLE, TAIL, FIXED
out = [HEAD]
OV = {}
for s in S:
    ev = None
    out.append("### %s %s\n\n%s\n\n" % (s["id"], s["title"], s["statement"]))
    out.append("* Quantified over (%s): %s.\n" % (", ".join(s["over"]), s["quant"]))
    out.append("* Enumerated, quick: %s.\n* Enumerated, thorough: %s; everything else as quick.\n" % (s["quick"], s["thorough"]))
    out.append("* Oracle: %s\n" % ORACLE[s["id"]])
    out.append("* Strength: %s.\n" % s["note"])
    out.append("* Beyond the tests: %s\n" % s["why"])
    out.append("* Code: %s. Harness: %s.\n\n" % (", ".join("`%s`" % f for f in s["files"]), "`pyrunner.py`" if s["cfg"].get("runner") == "python" else "`harness/%s.cc`" % s["harness"]))
rows = ["| planted bug | property | needs | caught by |\n|---|---|---|---|\n"]
sd = "/verif/seeded"
caught = json.load(open("/verif/tools/caught.json")) if os.path.exists("/verif/tools/caught.json") else {}
for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open("%s/%s/meta.json" % (sd, d)))
    rows.append("| %s | %s | %s | %s |\n" % (d, m["property"], m["needs"].replace("|", "/"), caught.get(d, "not yet run")))
out.append(TAIL % "".join(rows))
open("/verif/DESIGN.md", "w").write("".join(out))
lines = [l for l in open("/verif/known_findings.txt").read().splitlines() if l.startswith("known:")]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
for l in log:
    h, m = l.split(" ", 1)
    if m.startswith("fix:") and h in FIXED:
        lines.append("fixed: property=%s %s %s" % (FIXED[h], h, m[5:]))
    elif m.startswith("fix:"):
        print("no property for", l)
open("/verif/known_findings.txt", "w").write("\n".join(lines) + "\n")
