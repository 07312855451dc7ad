#!/usr/bin/env python3
"""Mutation campaign: tools/mutate.py PROPS FILES [N] [SEED]  (comma separated lists)

Applies small source mutations to a scratch copy of the repository and runs the quick checks of PROPS until one
reports; prints the survivors, and whether the project's own behaviour could have shown them is for the reader.
Never used by a check.
"""
import os, random, re, shutil, subprocess, sys, time
PROPS = sys.argv[1].split(","); FILES = sys.argv[2].split(","); N = int(sys.argv[3]) if len(sys.argv) > 3 else 40
rnd = random.Random(int(sys.argv[4]) if len(sys.argv) > 4 else 1)
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/mut/" + str(os.getpid()); R = W + "/repo"
os.makedirs(W); subprocess.check_call(["git", "clone", "-q", os.environ.get("VERIF_REPO", "/repo"), R])

def mutants(path):
    src = open(os.path.join(R, path)).read().split("\n"); out = []; comment = False; depth = 0
    for i, l in enumerate(src):
        s = l.strip()
        if comment or s.startswith(("/*", "*", "//", "#")):
            if "/*" in s: comment = True
            if "*/" in s: comment = False
            continue
        if not s or re.match(r"NX_(ASSERT|LOG|FATAL|WARNING|ERROR|IMAGE_ASSERT)|static inline|typedef|extern|struct \w+ \*?\w+\(", s) or not l.startswith((" ", "\t")):
            continue
        def add(new, what):
            if new != l: out.append((i, l, new, what))
        code = re.sub(r'"(\\.|[^"\\])*"', lambda m: '"' + "\x01" * (len(m.group(0)) - 2) + '"', l)
        for m in re.finditer(r"(?<![<>=!+\-*/&|%^])(<=|>=|==|!=|<|>)(?![<>=])", code):
            if code[m.start() - 1:m.start()] == "-" or (m.group(1) in "<>" and re.search(r"std::|template|include|_cast", code)): continue
            r = {"<": "<=", "<=": "<", ">": ">=", ">=": ">", "==": "!=", "!=": "=="}[m.group(1)]
            add(l[:m.start()] + r + l[m.end():], "relop")
        for m in re.finditer(r" ([+\-*/]) ", code):
            r = {"+": "-", "-": "+", "*": "/", "/": "*"}[m.group(1)]
            add(l[:m.start(1)] + r + l[m.end(1):], "arith")
        for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", code):
            add(l[:m.start()] + str(int(m.group(1)) + 1) + l[m.end():], "const")
        for m in re.finditer(r"&&|\|\|", code):
            add(l[:m.start()] + ("||" if m.group(0) == "&&" else "&&") + l[m.end():], "logic")
        if re.match(r"\s*(\*?[\w\[\]\.\->+* ()]+ ?([+\-*/|&]?=) .*;|[\w:.>-]+\(.*\);|break;|continue;|\+\+.*;|--.*;)$", code) and not re.match(r"\s*(return|(const |unsigned )?(int|float|double|char|size_t|uchar|struct|enum|long|uint\w+|NXBool|FILE|auto)\b)", code):
            add(re.match(r"\s*", l).group(0) + ";", "delete")
        m = re.match(r"(\s*(?:\} else )?if \()(.*)(\)( \{)?)$", l)
        if m and m.group(2).count("(") == m.group(2).count(")"):
            add(m.group(1) + "!(" + m.group(2) + ")" + m.group(3), "negate")
    return [(path,) + o for o in out]

allm = [m for f in FILES for m in mutants(f)]
rnd.shuffle(allm); pick = allm[:N]
print("%d mutants of %d" % (len(pick), len(allm)), flush=True)
env = dict(os.environ, VERIF_REPO=R); killed = 0; surv = []; nb = 0
def listing(): return set(os.listdir(VERIF + "/build/obj")) | set(os.listdir(VERIF + "/build"))
for p in PROPS:
    r = subprocess.run(["python3", "check.py", p], cwd=VERIF, env=env, capture_output=True, text=True)
    if r.returncode: print("baseline of %s fails" % p, r.stdout[-500:]); sys.exit(1)
base = listing(); t0 = time.time()
for path, i, old, new, what in pick:
    f = os.path.join(R, path); s = open(f).read(); L = s.split("\n"); L[i] = new; open(f, "w").write("\n".join(L))
    res = None
    for p in PROPS:
        r = subprocess.run(["python3", "check.py", p], cwd=VERIF, env=env, capture_output=True, text=True)
        if r.returncode == 2: res = "nobuild"; break
        if r.returncode == 1: res = p; break
        if r.returncode: res = "rc%d" % r.returncode; break
    open(f, "w").write(s)
    for n in listing() - base:
        for d in (VERIF + "/build/obj/", VERIF + "/build/"):
            if os.path.isfile(d + n): os.unlink(d + n)
    if res == "nobuild": nb += 1
    elif res and res[0] == "P": killed += 1
    else: surv.append((path, i)); print("%s %s:%d [%s]\n  - %s\n  + %s" % (res or "SURVIVED", path, i + 1, what, old.strip(), new.strip()), flush=True)
print("%s %s: killed %d, survived %d, not compiling %d, %.0f s" % (PROPS, FILES, killed, len(surv), nb, time.time() - t0))
shutil.rmtree(W)
