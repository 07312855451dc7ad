#!/usr/bin/env python3
"""Applies each planted bug to /repo in turn, runs the quick check of its property, and undoes it. Usage: runseeds.py [ID...]"""
import json, os, subprocess, sys
C = "/verif/tools/caught.json"
caught = json.load(open(C)) if os.path.exists(C) else {}
ids = sys.argv[1:] or sorted(os.listdir("/verif/seeded"))
assert subprocess.run("git -C /repo status --porcelain -uno", shell=True, capture_output=True, text=True).stdout == ""
for i in ids:
    d = "/verif/seeded/" + i
    if not os.path.exists(d + "/meta.json"): continue
    p = json.load(open(d + "/meta.json"))["property"]
    try:
        r = subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"])
        if r.returncode: print(i, p, "DOES NOT APPLY"); continue
        r = subprocess.run(["python3", "/verif/check.py", p], capture_output=True, text=True)
    finally:
        subprocess.run("git -C /repo checkout -- .", shell=True)
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    m = [l for l in r.stdout.splitlines() if "FAIL" in l or "detail" in l or "failure" in l]
    print(i, p, "caught" if r.returncode == 1 and v else f"MISSED rc={r.returncode}", (m or r.stdout.splitlines()[:1] or [""])[0][:160], flush=True)
    caught[i] = p + " quick" if r.returncode == 1 and v else "missed"
    json.dump(caught, open(C, "w"), indent=1, sort_keys=True)
