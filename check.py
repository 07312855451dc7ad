#!/usr/bin/env python3
"""Bounded exhaustive model checking driver for virg-nexus.

usage: check.py <PROPERTY> [--tier quick|thorough] [--replay FILE]

Builds the library from /repo's working tree (AddressSanitizer, release
configuration), links the property's harness, runs the harness sharded over
the cores, merges what the shards covered, confirms every suspected violation
by replaying the single case alone, and writes evidence/<PROPERTY>.json.
Exit codes: 0 (held on everything explored), 1 (VIOLATION).
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import resource
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
NPROC = min(8, os.cpu_count() or 1)
CC, CXX = "gcc", "g++"
COMMON = ["-O1", "-g1", "-DNDEBUG", "-DJSMN_PARENT_LINKS=1", "-mavx2", "-w",
          "-fsanitize=address", "-fno-omit-frame-pointer", "-ffp-contract=off"]
LIBS = ["-llapack", "-lcblas", "-lblas", "-lpng", "-ljpeg", "-lcairo", "-lz",
        "-lm", "-lpthread"]
GL_LIBS = ["-lGL"]

sys.path.insert(0, VERIF)
from props import PROPS  # noqa: E402  property id -> configuration


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(path):
    with open(path, "rb") as f:
        return f.read()


def gen_config(dst):
    """nx_config.h is generated by the project's build and ignored by git."""
    txt = read(os.path.join(REPO, "include/virg/nexus/nx_config.h.in")).decode()
    txt = re.sub(r"#cmakedefine01\s+(\w+)", r"#define \1 1", txt)
    for k, v in (("VIRG_NEXUS_SIMD_ALIGNMENT", "64"), ("VERSION_MAJOR", "0"),
                 ("VERSION_MINOR", "1")):
        txt = txt.replace("@%s@" % k, v)
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    if not os.path.exists(dst) or read(dst) != txt.encode():
        with open(dst, "w") as f:
            f.write(txt)


def lib_sources(gl=False):
    """The sources of the library as its own build file lists them (the OpenGL helpers only where asked for)."""
    cm = read(os.path.join(REPO, "CMakeLists.txt")).decode()
    listed = []
    for m in re.finditer(r"set\(virg_nexus_%sC(?:XX)?_SOURCES(.*?)\)" % ("(?:OPENGL_)?" if gl else ""), cm, re.S):
        listed += re.findall(r"src/[\w/]+\.(?:c|cc)\b", m.group(1))
    seen, out = set(), []
    for s in listed:
        if s not in seen and os.path.exists(os.path.join(REPO, s)):
            seen.add(s)
            out.append(s)
    if not out:
        raise BuildError("no sources found")
    return out


def tool_headers():
    d = os.path.join(REPO, "tools")
    return b"".join(f.encode() + b"\0" + read(os.path.join(d, f)) for f in sorted(os.listdir(d)) if f.endswith((".h", ".hpp")))


def run_cc(cmd, out, keep=None):
    tmp = out + ".tmp%d" % os.getpid()
    p = subprocess.run(cmd + ["-o", tmp], capture_output=True, text=True)
    if p.returncode == 0 and keep:
        p = subprocess.run(["objcopy", "--keep-global-symbol=" + keep, tmp], capture_output=True, text=True)
    if p.returncode != 0:
        raise BuildError(" ".join(cmd) + "\n" + p.stderr[:1500])
    os.replace(tmp, out)


def build(prop, log):
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    inc = os.path.join(BUILD, "include")
    gen_config(os.path.join(inc, "virg/nexus/nx_config.h"))
    hdr = hashlib.sha256()
    for root in ("include", "src", "ext"):
        for d, _, fs in sorted(os.walk(os.path.join(REPO, root))):
            for f in sorted(fs):
                if f == "nx_config.h":
                    continue
                if f.endswith((".h", ".hpp", ".hh", ".in")) or f == "nx_vector_gen.c":
                    hdr.update(os.path.join(d, f).encode() + b"\0" + read(os.path.join(d, f)))
    hdr = hdr.hexdigest()
    # our generated configuration header must win over a stale one in /repo
    incs = ["-I" + inc, "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src")]
    extra = ["-include", os.path.join(inc, "virg/nexus/nx_config.h")]
    cfg = PROPS[prop]
    jobs, objs = [], []
    for s in lib_sources(cfg.get("gl", False)):
        p = os.path.join(REPO, s)
        cxx = s.endswith(".cc")
        flags = (["-std=gnu++11"] if cxx else ["-std=gnu11"]) + COMMON + incs + extra
        o = os.path.join(BUILD, "obj", s.replace("/", "_") + "." +
                         sha(" ".join(flags), hdr, read(p)) + ".o")
        objs.append(o)
        if not os.path.exists(o):
            jobs.append(([CXX if cxx else CC] + flags + ["-c", p], o))
    # programs of the repository become functions of the harness: main is renamed, everything else stays local to them
    for s, name in cfg.get("programs", {}).items():
        p = os.path.join(REPO, s)
        cxx = s.endswith(".cc")
        flags = (["-std=gnu++11"] if cxx else ["-std=gnu11"]) + COMMON + incs + extra + (["-Dmain=" + name] if name else [])
        o = os.path.join(BUILD, "obj", s.replace("/", "_") + "." +
                         sha(" ".join(flags), hdr, tool_headers(), read(p)) + ".o")
        objs.append(o)
        if not os.path.exists(o):
            jobs.append(([CXX if cxx else CC] + flags + ["-c", p], o, name))
    hsrc = os.path.join(VERIF, "harness", cfg["harness"] + ".cc")
    hflags = ["-std=gnu++17"] + [f for f in COMMON if f != "-DNDEBUG"] + ["-DNDEBUG"] + incs + extra + \
        ["-I" + os.path.join(VERIF, "harness"), '-DPROP="%s"' % prop] + cfg.get("cflags", [])
    hh = b"".join(read(os.path.join(VERIF, "harness", f))
                  for f in sorted(os.listdir(os.path.join(VERIF, "harness"))) if f.endswith(".hh"))
    ho = os.path.join(BUILD, "obj", cfg["harness"] + "." + sha(" ".join(hflags), hdr, read(hsrc), hh) + ".o")
    if not os.path.exists(ho):
        jobs.append(([CXX] + hflags + ["-c", hsrc], ho))
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for r in [ex.submit(run_cc, *j) for j in jobs]:
            r.result()
    wraps = ["exit"] + cfg.get("wrap", [])
    ld = ["-fsanitize=address"] + ["-Wl,--wrap=" + w for w in wraps]
    exe = os.path.join(BUILD, prop + "." + sha(" ".join(objs), ho, " ".join(ld)))
    if not os.path.exists(exe):
        run_cc([CXX, ho] + objs + ld + LIBS + (GL_LIBS if cfg.get("gl") else []), exe)
    return exe


ASAN = ("detect_leaks=0:abort_on_error=0:exitcode=77:max_malloc_fill_size=1048576:"
        "malloc_fill_byte=%d:allocator_may_return_null=1:hard_rss_limit_mb=3500:"
        "detect_stack_use_after_return=0:quarantine_size_mb=16:"
        "print_summary=1:handle_abort=1:max_allocation_size_mb=1500")
# new memory holds different rubbish in different shards, so that a use of uninitialized memory shows
FILL = (205, 0, 255)


def limits():
    resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 28, 1 << 28))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)


class Shard:
    def __init__(self, exe, work, k, n, tier, replay=None, shard=None, fill=None):
        self.k = k
        self.fill = fill if fill is not None else FILL[(shard if shard is not None else k) % len(FILL)]
        self.dir = os.path.join(work, "s%s" % k)
        os.makedirs(self.dir, exist_ok=True)
        self.state = os.path.join(self.dir, "state")
        with open(self.state, "wb") as f:
            f.write(b"\0" * 4096)
        self.res = os.path.join(self.dir, "result.json")
        self.tmp = os.path.join(self.dir, "tmp")
        os.makedirs(self.tmp, exist_ok=True)
        cmd = [exe, "--tier", tier, "--shard", str(shard if shard is not None else k if replay is None else 0), str(n),
               "--state", self.state, "--result", self.res, "--tmp", self.tmp]
        if replay is not None:
            cmd += ["--replay", replay[0], str(replay[1])]
        env = {"PATH": "/usr/local/bin:/usr/bin:/bin", "LC_ALL": "C", "ASAN_OPTIONS": ASAN % self.fill,
               "HOME": self.tmp, "TMPDIR": self.tmp, "OPENBLAS_NUM_THREADS": "1"}
        self.out = open(os.path.join(self.dir, "out"), "wb")
        self.p = subprocess.Popen(cmd, stdout=self.out, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                                  env=env, cwd=self.tmp, preexec_fn=limits, start_new_session=True)
        self.last = None
        self.t_last = time.time()
        self.hung = False

    def where(self):
        b = read(self.state)
        tick, idx = struct.unpack_from("<QQ", b, 0)
        grp = b[16:16 + 200].split(b"\0")[0].decode("latin1")
        return tick, idx, grp

    def poll(self, stall):
        rc = self.p.poll()
        if rc is not None:
            return True
        t = self.where()[0]
        now = time.time()
        if t != self.last:
            self.last, self.t_last = t, now
        elif now - self.t_last > stall:
            self.hung = True
            self.kill()
            return True
        return False

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()

    def tail(self, n=3500):
        return read(self.out.name)[-n:].decode("latin1")

    def head(self, n=3500):
        return read(self.out.name)[:n].decode("latin1")


def wait(shards, stall):
    live = list(shards)
    while live:
        live = [s for s in live if not s.poll(stall)]
        if live:
            time.sleep(0.05)


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for ln in read(p).decode().splitlines():
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", ln)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def confirm(exe, work, tier, group, idx, tag, fill=None):
    """Replay one case alone; returns (failed, message)."""
    s = Shard(exe, work, "replay-" + tag, 1, tier, (group, idx), fill=FILL[0] if fill is None else fill)
    wait([s], 120)
    s.out.close()
    if s.hung:
        return True, "HANG: no progress for 120 s in this single case\n" + s.tail(800), []
    fails = []
    if os.path.exists(s.res):
        try:
            fails = json.loads(read(s.res))["failures"]
        except ValueError:
            pass
    if s.p.returncode != 0:
        return True, "CRASH rc=%s\n%s" % (s.p.returncode, s.head()), fails
    if fails:
        return True, "\n".join(f["msg"] for f in fails), fails
    return False, s.tail(500), fails


def main():
    a = sys.argv[1:]
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    i = 1
    while i < len(a):
        if a[i] == "--tier":
            tier = a[i + 1]
        elif a[i] == "--replay":
            replay = a[i + 1]
        i += 2
    if tier not in ("quick", "thorough"):
        tier = "quick"
    cfg = PROPS[prop]
    if cfg.get("runner") == "python":
        import pyrunner
        return pyrunner.main(prop, tier, replay)
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence", "replays"), exist_ok=True)
    work = tempfile.mkdtemp(prefix="vn-%s-" % prop)
    try:
        exe = build(prop, None)
        t_build = time.time() - t0
        if replay:
            r = json.load(open(replay))
            bad, msg, _ = confirm(exe, work, r["tier"], r["group"], r["index"], "x", r.get("fill"))
            print(msg)
            print("REPRODUCED" if bad else "NOT REPRODUCED")
            return 1 if bad else 0
        n = cfg.get("shards", NPROC)
        shards = [Shard(exe, work, k, n, tier) for k in range(n)]
        try:
            wait(shards, cfg.get("stall", 45))
        finally:
            for s in shards:
                if s.p.poll() is None:
                    s.kill()
        viol, known_hit, notes = [], {}, []
        cov = {"cases": 0, "transitions": 0, "groups": {}, "samples": []}
        states = set()
        cand = []
        capped = False
        for s in shards:
            s.out.close()
            if s.p.returncode == 0 and os.path.exists(s.res):
                r = json.loads(read(s.res).decode("latin1"))
                cov["cases"] += r["cases"]
                cov["transitions"] += r["transitions"]
                capped = capped or r["capped"]
                for g, c in r["groups"].items():
                    cov["groups"][g] = cov["groups"].get(g, 0) + c
                cov["samples"] += r["samples"][:3]
                b = read(s.res + ".states")
                states.update(struct.unpack("<%dQ" % (len(b) // 8), b))
                for f in r["failures"]:
                    cand.append((f["group"], f["index"], f["key"], f["msg"], s.k))
            else:
                tick, idx, grp = s.where()
                cand.append((grp, idx, "hang" if s.hung else "crash", s.head(2500), s.k))
        cand.sort(key=lambda c: (c[0], c[1]))
        kf = known_findings(prop)
        seen_conf = 0
        reran = False
        for grp, idx, key, msg, shard in cand:
            k = [d for kk, d in kf if kk == key]
            if k:
                known_hit[key] = k[0]
                continue
            if seen_conf >= 3:
                continue
            bad, cmsg, _ = confirm(exe, work, tier, grp, idx, "%d" % len(viol), FILL[shard % len(FILL)])
            if not bad and not reran:
                # depends on what ran before in the same process: repeat the whole shard once
                reran = True
                s = Shard(exe, work, "again-%d" % shard, n, tier, shard=shard)
                wait([s], cfg.get("stall", 45))
                s.out.close()
                again = json.loads(read(s.res).decode("latin1"))["failures"] if s.p.returncode == 0 else None
                if again is None or any(f["group"] == grp and f["index"] == idx for f in again):
                    bad, cmsg = True, "(only after the cases before it, shard %d of %d)\n%s" % (shard, n, msg)
            if bad:
                seen_conf += 1
                viol.append((grp, idx, key, cmsg, FILL[shard % len(FILL)]))
            else:
                notes.append("not reproduced alone: %s #%s %s" % (grp, idx, msg[:300]))
        unconf = [n_ for n_ in notes]
        wall = time.time() - t0
        ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "0") or 0),
              "level": "model_checking",
              "coverage": {"states": len(states), "transitions": cov["transitions"],
                           "traces_validated_against_impl": cov["cases"],
                           "exhaustive": (not capped) and not viol,
                           "cases_per_group": cov["groups"],
                           "bounds": cfg["bounds"][tier] if isinstance(cfg.get("bounds"), dict) else cfg.get("bounds", ""),
                           "rule": "states = distinct reference-model outcomes (hashes) reached; transitions = library calls "
                                   "compared with the reference model; traces = complete cases (inputs, operation "
                                   "sequences or fault points) executed on the real library and compared step by step",
                           "state_cap_hit": capped, "build_s": round(t_build, 1),
                           "samples": cov["samples"][:8]},
              "assumptions": cfg.get("assumptions", []),
              "wall_s": round(wall, 2), "violations": len(viol), "notes": notes[:10]}
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s tier=%s states=%d transitions=%d cases=%d wall=%.1fs (build %.1fs)" % (
            prop, tier, len(states), cov["transitions"], cov["cases"], wall, t_build))
        for g in sorted(cov["groups"]):
            print("  %-32s %d cases" % (g, cov["groups"][g]))
        for nt in notes:
            print("  NOTE", nt)
        for key in sorted(known_hit):
            print("KNOWN-FINDING: property=%s %s" % (prop, known_hit[key]))
        for n_, (grp, idx, key, msg, fill) in enumerate(viol):
            rp = os.path.join(VERIF, "evidence", "replays", "%s-%s-%s.json" % (prop, re.sub(r"\W", "_", grp), idx))
            with open(rp, "w") as f:
                json.dump({"property": prop, "tier": tier, "group": grp, "index": idx, "key": key, "message": msg, "fill": fill,
                           "how": "python3 /verif/check.py %s --replay %s" % (prop, rp)}, f, indent=1)
            print(msg[:1800])
            print("VIOLATION property=%s replay=%s" % (prop, rp))
        if viol:
            return 1
        if unconf:
            # a shard died but the case alone is fine: not an answer we can give silently
            print("ERROR: unreproducible shard failure")
            return 3
        return 0
    except BuildError as e:
        print("ERROR: build failed\n%s" % e)
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
