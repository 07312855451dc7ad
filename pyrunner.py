"""P08: pyvirg's option management, explored exhaustively within bounds (pure Python, in process)."""
import contextlib
import io
import itertools
import json
import math
import os
import signal
import shutil
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True


class Hang(Exception):
    pass


class Explorer:
    def __init__(self, tier, only):
        self.tier, self.only = tier, only
        self.cases, self.steps, self.groups, self.states, self.fails = 0, 0, {}, set(), []
        self.samples = []

    def pick(self, a, b):
        return b if self.tier == "thorough" else a

    def case(self, group, label, f):
        n = self.groups.get(group, 0)
        self.groups[group] = n + 1
        if self.only and self.only != (group, n):
            return
        if len(self.fails) >= 20:
            return
        self.cases += 1
        if n in (0, 7, 50) and len(self.samples) < 8:
            self.samples.append("%s: %s" % (group, label))
        if self.only:
            print("CASE", group, n, label)
        signal.setitimer(signal.ITIMER_REAL, 30)
        try:
            r = f()
        except Hang:
            r = "does not terminate"
        except BaseException as e:  # an escaped exception is a failed case
            r = "raises %s: %s" % (type(e).__name__, str(e)[:300])
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        if r:
            self.fails.append((group, n, "%s: %s" % (label, r)))

    def state(self, x):
        self.states.add(hash(x))


def same(a, b):
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
        return True
    return type(a) is type(b) and a == b


def explore(x, tmp):
    sys.path.insert(0, os.path.join(REPO, "pyvirg"))
    from virg.nexus.options import OptionItem, OptionGroup, Options

    def mk(variant, flag=None):
        d = [("s", "text-value", str, None), ("i", "integer", int, 42), (None, "test-flag", bool, flag), ("r", None, float, 3.5),
             ("b", "big-flag", bool, True), (None, "yes", str, "dflt")]
        items = [OptionItem(a, b, t, v, "help %d" % k) for k, (a, b, t, v) in enumerate(d)]
        if variant == 0:
            return Options([OptionGroup("all", items)]), items
        return Options([OptionGroup("one", items[:2]), OptionGroup("two", items[2:3]), OptionGroup("three", items[3:])]), items

    KEYS = ["text_value", "integer", "test_flag", "r", "big_flag", "yes"]

    def defaults(flag):
        return {"text_value": None, "integer": 42, "test_flag": bool(flag), "r": 3.5, "big_flag": True, "yes": "dflt"}

    def quiet(f):
        with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
            return f()

    # settings: (tokens, key, value)
    SET = [(["-s", "abc"], "text_value", "abc"), (["--text-value", "x y"], "text_value", "x y"), (["--text-value", ""], "text_value", ""), (["-i", "7"], "integer", 7), (["--integer", "-3"], "integer", -3),
           (["--test-flag"], "test_flag", True), (["-r", "2.25"], "r", 2.25), (["-r", "1e300"], "r", 1e300), (["-b"], "big_flag", True),
           (["--big-flag"], "big_flag", True), (["--yes", "no"], "yes", "no")]
    L = x.pick(3, 4)
    for variant in (0, 1):
        for flag in (None, False, True):
            for n in range(L + 1):
                for seq in itertools.product(SET, repeat=n):
                    args = sum((s[0] for s in seq), [])

                    def f():
                        opt, items = mk(variant, flag)
                        e = defaults(flag)
                        for _, k, v in seq:
                            e[k] = v
                        got = quiet(lambda: opt.parse_args(list(args)))
                        x.steps += 1
                        x.state(tuple(sorted((k, repr(v)) for k, v in e.items())))
                        for k in KEYS:
                            if k not in got or not same(got[k], e[k]):
                                return "returned %s=%r, expected %r" % (k, got.get(k), e[k])
                        d = opt.to_dict()
                        for it, k in zip(items, KEYS):
                            if not same(it.value, e[k]) or not same(d.get(k), e[k]) or it.key_name != k:
                                return "option %s holds %r (dictionary %r), expected %r" % (k, it.value, d.get(k), e[k])
                        if set(d) != set(KEYS):
                            return "dictionary keys %r" % sorted(d)
                    x.case("arguments", "%d/%s %r" % (variant, flag, args), f)
    # refused argument lists
    for bad in (["-i"], ["-i", "x"], ["--integer", "1.5"], ["-r", "abc"], ["--unknown"], ["stray"], ["-s"], ["--test-flag", "yes"], ["-i", "1", "stray"], ["-q"]):
        for pre in ([], ["-i", "5"], ["--test-flag"]):
            def f():
                opt, items = mk(0)
                try:
                    quiet(lambda: opt.parse_args(pre + bad))
                except SystemExit as e:
                    x.steps += 1
                    return None if e.code else "exit code %r" % e.code
                return "accepted"
            x.case("refused", repr(pre + bad), f)
    # YAML round trip
    A = "a1:# '\"\n-{[,&*!|>%@`\\\té?"
    strings = ["".join(t) for n in range(x.pick(3, 4)) for t in itertools.product(A, repeat=n)]
    strings += ["true", "false", "null", "yes", "no", "on", "off", "~", "1", "0x10", "1.5", "1e5", "1_000", "2001-01-01", ".inf", "nan", "12:30:45", "a: b", "# c", "- x", "---", "...",
                " lead", "trail ", "a" * 300, "word " * 60, "line\n\nline\n", "\r\n", "!!python/none", "=", "<<", "x\x85y", "\u2028"]
    yml = os.path.join(tmp, "o.yaml")

    def rt(values, label, group):
        def f():
            opt, items = mk(1)
            for it, v in zip(items, values):
                it.value = v
            with open(yml, "w") as old:  # what was there before does not matter
                old.write("stale: 1\n" * 3)
            opt.save_yaml(yml)
            o2, i2 = mk(0)
            got = o2.load_yaml(yml)
            x.steps += 2
            x.state(repr(values))
            if set(got) != set(KEYS):
                return "keys in the file: %r" % sorted(map(str, got))
            for k, it, v in zip(KEYS, i2, values):
                if not same(it.value, v) or not same(got.get(k), v):
                    return "%s saved as %r, loaded as %r (returned %r)\n%s" % (k, v, it.value, got.get(k), open(yml).read())
            o3, i3 = mk(1)
            got = quiet(lambda: o3.parse_args(["-i", "5", "--from-yaml", yml, "--test-flag"]))
            x.steps += 1
            for k, it, v in zip(KEYS, i3, values):
                if not same(it.value, v) or not same(got.get(k), v):
                    return "%s given by --from-yaml: %r, expected %r" % (k, it.value, v)
            o4, i4 = mk(0)
            o4.from_dict(opt.to_dict())
            for it, v in zip(i4, values):
                if not same(it.value, v):
                    return "dictionary round trip of %s: %r, expected %r" % (it.key_name, it.value, v)
        x.case(group, label, f)
    for s in strings:
        rt([s, 1, False, 0.5, True, s], repr(s), "yaml-strings")
    ints = sorted({sg * (1 << p) + d for p in range(0, 66, 3) for d in (-1, 0, 1) for sg in (1, -1)})
    for v in ints:
        rt(["x", v, True, 1.0, False, "y"], repr(v), "yaml-integers")
    fl = [0.0, -0.0, float("inf"), -float("inf"), float("nan"), 0.1, 1 / 3, 1e16, 123456789.0, 5e-324]
    fl += [sg * m * 2.0 ** e for e in range(-1000, 1000, x.pick(9, 1)) for m in (1, 1.1, 1.7320508075688772) for sg in (1, -1)]
    for v in fl:
        rt(["x", 1, True, v, False, "y"], repr(v), "yaml-reals")
    for c in itertools.product([None, "a"], [None, 0], [None, True, False], [None, 1.5], [None, True], [None, "b"]):
        rt(list(c), repr(c), "yaml-missing")
    # dictionaries: present keys win, missing keys reset to the default
    for mask in range(64):
        for variant in (0, 1):
            def f():
                opt, items = mk(variant, True)
                for it in items:
                    it.value = "stale"
                full = dict(zip(KEYS, ["S", 1, False, 9.5, False, "Y"]))
                d = {k: full[k] for b, k in enumerate(KEYS) if mask >> b & 1}
                opt.from_dict(d)
                e = dict(defaults(True))
                e.update(d)
                x.steps += 1
                for it, k in zip(items, KEYS):
                    if not same(it.value, e[k]):
                        return "%s is %r, expected %r" % (k, it.value, e[k])
            x.case("dictionaries", "%d/%d" % (mask, variant), f)
    # key names
    for n in range(1, x.pick(5, 7)):
        for t in itertools.product("a-_", repeat=n):
            name = "".join(t)

            def f():
                k = name.replace("-", "_")
                x.steps += 1
                if OptionItem("s", name).key_name != k or OptionItem(name).key_name != k or OptionItem(None, name).key_name != k:
                    return "key name of %r" % name
                g = OptionGroup("t", [OptionItem("s", name, int, 4), OptionItem("q")])
                if len(g) != 2 or g[0].key_name != k or g[1].key_name != "q" or g.to_dict() != {k: 4, "q": None}:
                    return "group of %r" % name
            x.case("key-names", name, f)

    # sets of options of all shapes (empty ones included), titles and names, through every way of giving values
    TITLES = ["t", "", "a: b", "two\nlines", "# x", "x\n\ny: 1\n", "\r\nz", "- q\u2028w", "a" * 500]
    NAMES = [("a", None), (None, "no"), ("n", "null"), (None, "1"), ("x", "y-z-w"), (None, "true"), ("q", "a-b_c-d"), (None, "very-long-" * 30 + "name"), (None, "2001-01-01"), ("k", "e1"), (None, "1e5")]
    TYPES = [(str, "txt", "1.0"), (int, 3, "-12"), (float, 0.5, "7"), (str, None, "no"), (bool, False, None), (int, None, "0"), (bool, True, None), (float, None, "-0.25")]
    for shape in [s for n in range(x.pick(4, 5)) for s in itertools.product((0, 1, 2, 3), repeat=n)]:
        for salt in range(len(TITLES)):
            def f():
                def build():
                    groups, items, n = [], [], 0
                    for g, cnt in enumerate(shape):
                        its = []
                        for _ in range(cnt):
                            (sn, ln), (t, dv, arg) = NAMES[(n + salt) % len(NAMES)], TYPES[(n * 3 + salt) % len(TYPES)]
                            its.append((OptionItem(sn, ln, t, dv, "h"), sn, ln, t, dv, arg))
                            n += 1
                        items += its
                        groups.append(OptionGroup(TITLES[(g + salt) % len(TITLES)], [i[0] for i in its]) if its or salt % 2 else OptionGroup(TITLES[(g + salt) % len(TITLES)]))
                    return (Options(groups) if groups or salt % 2 else Options()), items
                opt, items = build()
                keys = [(ln if ln is not None else sn).replace("-", "_") for _, sn, ln, _, _, _ in items]
                dv = [bool(d) if t is bool else d for _, _, _, t, d, _ in items]
                given, args, e = [], [], {}
                for n, (it, sn, ln, t, d, a) in enumerate(items):
                    e[keys[n]] = dv[n]
                    if (n + salt) % 2:
                        v = True if t is bool else t(a)
                        args += [("-" + sn) if sn and (n + salt) % 3 or not ln else "--" + ln] + ([] if t is bool else [a])
                        e[keys[n]] = v
                from argparse import ArgumentParser
                par = None
                if salt % 3 == 0:
                    par = ArgumentParser()
                    par.add_argument("--users-own", type=int, default=5)
                    args = ["--users-own", "8"] + args
                got = quiet(lambda: opt.parse_args(list(args), par) if par else opt.parse_args(list(args)))
                x.steps += 1
                if par and got.get("users_own") != 8:
                    return "the argument of the given parser is %r" % got.get("users_own")

                def check(o, its, got, e, what):
                    d = o.to_dict()
                    if len(o.options) != len(shape) or [len(g) for g in o.options] != list(shape):
                        return "%s: groups have %r items" % (what, [len(g) for g in o.options])
                    if set(d) != set(keys):
                        return "%s: keys %r instead of %r" % (what, sorted(d), sorted(keys))
                    for (it, *_), k in zip(its, keys):
                        if not same(it.value, e[k]) or not same(d[k], e[k]) or (got is not None and not same(got.get(k), e[k])):
                            return "%s: %s is %r, in the dictionary %r, returned %r, expected %r" % (what, k, it.value, d[k], got.get(k) if got is not None else None, e[k])
                r = check(opt, items, got, e, "arguments")
                if r:
                    return r
                file = os.path.join(tmp, "s.yaml")
                opt.save_yaml(file)
                o2, i2 = build()
                got = o2.load_yaml(file)
                r = check(o2, i2, got, e, "YAML file")
                if r or set(got) != set(keys):
                    return r or "the file gives %r" % got
                o3, i3 = build()
                got = quiet(lambda: o3.parse_args(["--from-yaml", file]))
                r = check(o3, i3, got, e, "--from-yaml") or check(opt, items, None, e, "saving")
                if r:
                    return r
                # a file of some of the options and of others that are not known
                sub = {k: e[k] for n, k in enumerate(keys) if (n + salt) % 3 == 0}
                import yaml
                with open(file, "w") as fo:
                    yaml.safe_dump(dict(sub, unknown_option=3), fo)
                e2 = {k: sub.get(k, it[4]) for k, it in zip(keys, i3)}
                for k in sub:
                    e2[k] = sub[k]
                got = o3.load_yaml(file)
                x.steps += 4
                x.state((shape, salt))
                if got != dict(sub, unknown_option=3):
                    return "the file gives %r" % got
                return check(o3, i3, None, e2, "partial file")
            x.case("option-sets", "groups of %r, salt %d" % (shape, salt), f)
    for n in range(3):
        def f():
            a, b = OptionGroup("a"), OptionGroup("b")
            o, q = Options(), Options()
            a.items.append(OptionItem("x", "xx", int, 1))
            o.options.append(a)
            x.steps += 1
            if len(b) or len(q.options) or q.to_dict() or b.to_dict() or o.to_dict() != {"xx": 1}:
                return "options added to one set appear in another"
        x.case("separate-sets", str(n), f)
    # histories: parsing, loading, dictionaries and assignments one after the other on the same options
    def histories():
        files = []
        for j, vals in enumerate((["F", 9, True, 0.125, False, "no"], [None, -1, False, 2.0, True, ""])):
            o, its = mk(0)
            for it, v in zip(its, vals):
                it.value = v
            fn = os.path.join(tmp, "h%d.yaml" % j)
            o.save_yaml(fn)
            files.append((fn, dict(zip(KEYS, vals))))
        part = os.path.join(tmp, "part.yaml")
        with open(part, "w") as fo:
            fo.write("integer: 77\n'yes': 'q'\n")
        raw = {"text_value": None, "integer": 42, "test_flag": None, "r": 3.5, "big_flag": True, "yes": "dflt"}
        OPS = [("parse", [], {}), ("parse", ["-i", "7"], {"integer": 7}), ("parse", ["--test-flag", "-s", "w"], {"test_flag": True, "text_value": "w"}), ("parse", ["-i", "7", "--from-yaml", files[0][0]], files[0][1]),
               ("load", files[0][0], files[0][1]), ("load", files[1][0], files[1][1]), ("load", part, {"integer": 77, "yes": "q"}), ("dict", {}, {}), ("dict", {"r": 8.5, "zzz": 1}, {"r": 8.5}), ("set", 1, 5), ("set", 5, "direct"), ("save", None, None)]
        for seq in itertools.product(OPS, repeat=x.pick(3, 4)):
            def f():
                opt, items = mk(1)
                now, last = dict(raw), None
                for op, a, b in seq:
                    x.steps += 1
                    if op == "parse":
                        quiet(lambda: opt.parse_args(list(a)))
                        now = dict(raw if "--from-yaml" in a else defaults(None))
                        now.update(b)
                    elif op == "load":
                        opt.load_yaml(a)
                        now = dict(raw)
                        now.update(b)
                    elif op == "dict":
                        opt.from_dict(dict(a))
                        now = dict(raw)
                        now.update(b)
                    elif op == "set":
                        items[a].value = b
                        now[KEYS[a]] = b
                    else:
                        opt.save_yaml(yml)
                        o2, i2 = mk(0)
                        o2.load_yaml(yml)
                        for it, k in zip(i2, KEYS):
                            if not same(it.value, now[k]):
                                return "saved %s is %r, expected %r" % (k, it.value, now[k])
                    d = opt.to_dict()
                    for it, k in zip(items, KEYS):
                        if not same(it.value, now[k]) or not same(d[k], now[k]):
                            return "%s is %r, expected %r" % (k, it.value, now[k])
                    x.state(tuple(repr(now[k]) for k in KEYS))
            x.case("histories", "; ".join("%s %r" % (o[0], o[1]) for o in seq), f)
    histories()


def main(prop, tier, replay):
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, "evidence", "replays"), exist_ok=True)
    only = None
    if replay:
        r = json.load(open(replay))
        tier, only = r["tier"], (r["group"], r["index"])

    def alarm(*_):
        raise Hang()
    signal.signal(signal.SIGALRM, alarm)
    tmp = tempfile.mkdtemp(prefix="vn-%s-" % prop)
    x = Explorer(tier, only)
    try:
        explore(x, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if replay:
        for f in x.fails:
            print(f)
        print("REPRODUCED" if x.fails else "NOT REPRODUCED")
        return 1 if x.fails else 0
    from props import PROPS
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "0") or 0), "level": "model_checking",
          "coverage": {"states": len(x.states), "transitions": x.steps, "traces_validated_against_impl": x.cases,
                       "exhaustive": not x.fails, "cases_per_group": x.groups, "bounds": PROPS[prop]["bounds"][tier], "samples": x.samples},
          "assumptions": PROPS[prop].get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(x.fails)}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s tier=%s states=%d transitions=%d cases=%d wall=%.1fs" % (prop, tier, len(x.states), x.steps, x.cases, time.time() - t0))
    for g, n in sorted(x.groups.items()):
        print("  %-32s %d cases" % (g, n))
    for group, n, msg in x.fails[:3]:
        rp = os.path.join(VERIF, "evidence", "replays", "%s-%s-%s.json" % (prop, group, n))
        json.dump({"property": prop, "tier": tier, "group": group, "index": n, "message": msg}, open(rp, "w"), indent=1)
        print(msg[:1500])
        print("VIOLATION property=%s replay=%s" % (prop, rp))
    return 1 if x.fails else 0
