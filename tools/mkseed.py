#!/usr/bin/env python3
"""Confirms a planted bug in a scratch copy of /repo and stores it in /verif/seeded/<id>/.
Usage: mkseed.py FILE.py  where FILE.py defines SEEDS = [dict(id, property, edits=[(path, old, new)], demo=C++ source or py=python source, needs, breaks)]"""
import json, os, shutil, subprocess, sys
SW = "/tmp/sw"
SEED = os.environ.get("SEED_DIR", "/verif/seeded")
def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def prepare():
    head = sh("git -C /repo rev-parse HEAD").stdout.strip()
    if os.path.exists(SW + "/.head") and open(SW + "/.head").read() == head: return
    shutil.rmtree(SW, ignore_errors=True); shutil.copytree("/repo", SW, symlinks=True, ignore=shutil.ignore_patterns("_build"))
    for n in ("build.sh", "test.sh"):
        s = open("/opt/vp/" + n).read().replace("/repo", SW).replace("/opt/vp/build.sh", SW + "/.vp/build.sh")
        os.makedirs(SW + "/.vp", exist_ok=True); open(SW + "/.vp/" + n, "w").write(s)
    r = sh(f"bash {SW}/.vp/build.sh"); assert r.returncode == 0, r.stderr[-2000:] + r.stdout[-2000:]
    open(SW + "/.head", "w").write(head)
DEMO = '''#!/bin/bash
# Run with cwd at the top of the built source tree.
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"; trap 'rm -rf "$tmp"' EXIT
g++ -std=gnu++17 -O1 -w -I"$PWD/include" "$here/demo.cc" -o "$tmp/demo" "$PWD/lib/libvirg-nexus.a" -llapack -lcblas -lblas -lpng -ljpeg -lcairo -lz -lm -lpthread || exit 99
cd "$tmp" && timeout 60 ./demo
'''
DEMOPY = '''#!/bin/bash
# Run with cwd at the top of the source tree.
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"; trap 'rm -rf "$tmp"' EXIT
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/pyvirg"
cd "$tmp" && timeout 60 /opt/vp/pyenv/bin/python "$here/demo.py"
'''
def one(s):
    d = f"{SEED}/{s['id']}"; t = "/tmp/seedtmp/" + s["id"]; shutil.rmtree(t, ignore_errors=True); os.makedirs(t)
    open(t + "/demo.sh", "w").write(s.get("sh") or (DEMOPY if "py" in s else DEMO)); os.chmod(t + "/demo.sh", 0o755)
    if "py" in s or "demo" in s: open(t + ("/demo.py" if "py" in s else "/demo.cc"), "w").write(s.get("py") or s["demo"])
    for path, old, new in s["edits"]:
        p = f"{SW}/{path}"; x = open(p).read(); assert x.count(old) == 1, (s["id"], path, old, x.count(old)); open(p, "w").write(x.replace(old, new))
    try:
        diff = sh(f"git -C {SW} diff").stdout; open(t + "/patch.diff", "w").write(diff)
        r = sh(f"bash {SW}/.vp/test.sh {t}/out.json")
        base = json.load(open("/opt/vp/BASELINE.json")); stable = base.get("passed") or base.get("stable") or base
        try: got = set(json.load(open(t + "/out.json"))["passed"])
        except Exception: got = set()
        miss = [x for x in stable if x not in got]
        if miss: print(s["id"], "REJECTED: tests fail", len(miss), miss[:3], r.stderr[-500:] if len(miss) > 50 else ""); return
        bad = sh(f"cd {SW} && bash {t}/demo.sh")
    finally:
        sh(f"git -C {SW} checkout -- . && bash {SW}/.vp/build.sh")
    good = sh(f"cd {SW} && bash {t}/demo.sh")
    if good.returncode != 0 or bad.returncode in (0, 99): print(s["id"], "REJECTED: demo", good.returncode, bad.returncode, good.stdout[-300:], good.stderr[-600:], bad.stdout[-300:]); return
    os.remove(t + "/out.json")
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(t + "/meta.json", "w"), indent=1)
    shutil.rmtree(d, ignore_errors=True); shutil.copytree(t, d)
    print(s["id"], "kept; demo says:", bad.returncode, bad.stdout.strip()[-150:])
if __name__ == "__main__":
    ns = {}; exec(open(sys.argv[1]).read(), ns); prepare()
    only = sys.argv[2:]
    for s in ns["SEEDS"]:
        if not only or s["id"] in only: one(s)
