// P07: command line options, C and C++ interfaces: every argument vector within the bounds,
// every pair of consecutive parses, names, types and misuse, against a reference parser.
#include "mc.hh"
extern "C" {
#include "virg/nexus/nx_options.h"
#include "virg/nexus/nx_alloc.h"
}
#include "virg/nexus/vg_options.hpp"
#include <cmath>
#include <climits>
#include <memory>
using namespace mc;
using virg::nexus::VGOptions;
// warnings of the library during a parse
static std::vector<std::string> *warnings;
extern "C" void __wrap_nx_log_formatted(enum NXLogLevel lv, const char *, int, const char *, const char *msg, ...) { if (!warnings || lv < NX_LOG_WARNING) return; va_list a; va_start(a, msg); char *b = nullptr; if (vasprintf(&b, msg, a) >= 0) { warnings->push_back(b); free(b); } va_end(a); }

struct O { char type; std::string s, l; int i = 0; double d = 0; bool b = false; std::string str; bool req = false; bool null_default = false; };
struct V { bool set = false; int i = 0; double d = 0; bool b = false; std::string str; bool null = false; };
struct Cfg { std::vector<O> o; int rest = 0; bool help = false; };     // rest: 0 none, 1 optional, 2 required
struct Outcome { int kind = 0; std::vector<V> v; std::vector<std::string> rest, unused; }; // 0 ok, 1 fatal, 2 exit

static V defv(const O &o) { V v; v.i = o.i; v.d = o.d; v.b = o.b; v.str = o.str; v.null = o.null_default; return v; }
static Outcome ref(const Cfg &c, const std::vector<std::string> &a) {
    Outcome r; for (auto &o : c.o) r.v.push_back(defv(o));
    std::vector<std::string> un;
    for (size_t i = 1; i < a.size(); ++i) {
        if (c.help && (a[i] == "-h" || a[i] == "--help")) { r.kind = 2; return r; }
        int k = -1;
        for (size_t j = 0; j < c.o.size(); ++j) if ((!c.o[j].s.empty() && c.o[j].s == a[i]) || (!c.o[j].l.empty() && c.o[j].l == a[i])) k = (int)j;
        if (k < 0) { un.push_back(a[i]); continue; }
        V &v = r.v[k]; v.set = true;
        if (c.o[k].type == 'b') { v.b = true; continue; }
        if (i + 1 == a.size()) { r.kind = 1; return r; }
        ++i;
        if (c.o[k].type == 'i') v.i = (int)strtol(a[i].c_str(), nullptr, 10);
        else if (c.o[k].type == 'd') v.d = strtod(a[i].c_str(), nullptr);
        else { v.str = a[i]; v.null = false; }
    }
    for (size_t j = 0; j < c.o.size(); ++j) if (c.o[j].req && !r.v[j].set) r.kind = 1;
    if (c.rest == 2 && un.empty()) r.kind = 1;
    if (c.rest) r.rest = un; else r.unused = un;
    return r;
}
// one interface over the C and the C++ API
struct Api {
    NXOptions *c = nullptr; std::unique_ptr<VGOptions> x;
    Api(const Cfg &k, bool cxx, bool single) {
        if (cxx) x.reset(new VGOptions()); else c = single ? nx_options_new(nullptr) : nx_options_alloc();
        for (auto &o : k.o) {
            std::string n = o.s.empty() ? o.l : o.l.empty() ? o.s : o.s + "|" + o.l;
            std::string h = "help of " + n;
            if (cxx) {
                auto q = o.req ? VGOptions::REQUIRED : VGOptions::NOT_REQUIRED;
                switch (o.type) { case 'b': x->add_bool(n, h, q, o.b); break; case 'i': x->add_int(n, h, q, o.i); break; case 'd': x->add_double(n, h, q, o.d); break; default: x->add_string(n, h, q, o.str); }
            } else {
                char f[2] = {(char)(o.req ? toupper(o.type) : o.type), 0};
                switch (o.type) { case 'b': nx_options_add(c, f, n.c_str(), h.c_str(), o.b ? NX_TRUE : NX_FALSE); break; case 'i': nx_options_add(c, f, n.c_str(), h.c_str(), o.i); break;
                    case 'd': nx_options_add(c, f, n.c_str(), h.c_str(), o.d); break; default: nx_options_add(c, f, n.c_str(), h.c_str(), o.null_default ? nullptr : o.str.c_str()); }
            }
        }
        if (k.rest) { if (cxx) x->add_rest("files", k.rest == 2 ? VGOptions::REQUIRED : VGOptions::NOT_REQUIRED); else nx_options_add(c, k.rest == 2 ? "R" : "r", "files"); }
        if (k.help) { if (cxx) x->add_help(); else nx_options_add_help(c); }
    }
    ~Api() { if (c) nx_options_free(c); }
    int parse(const std::vector<std::string> &a) {
        std::vector<char *> p; std::vector<std::string> cp = a; for (auto &s : cp) p.push_back((char *)s.c_str()); p.push_back(nullptr);
        // exactly sized vector without the terminator beyond argc
        char **v = (char **)malloc(a.size() * sizeof(char *)); memcpy(v, p.data(), a.size() * sizeof(char *));
        bool ok = guarded([&] { if (x) x->set_from_args((int)a.size(), v); else nx_options_set_from_args(c, (int)a.size(), v); });
        free(v);
        step();
        return ok ? 0 : fatal_kind;
    }
    std::string diff(const Cfg &k, const Outcome &r) {
        for (size_t j = 0; j < k.o.size(); ++j) {
            const O &o = k.o[j]; const V &v = r.v[j];
            for (const std::string &n : {o.s, o.l}) {
                if (n.empty()) continue;
                bool set = x ? x->is_set(n) : (bool)nx_options_is_set(c, n.c_str());
                if (set != v.set) return fmt("option %s is_set %d, expected %d", n.c_str(), set, v.set);
                switch (o.type) {
                case 'b': { bool g = x ? x->get_bool(n) : (bool)nx_options_get_bool(c, n.c_str()); if (g != v.b) return fmt("option %s is %d, expected %d", n.c_str(), g, v.b); break; }
                case 'i': { int g = x ? x->get_int(n) : nx_options_get_int(c, n.c_str()); if (g != v.i) return fmt("option %s is %d, expected %d", n.c_str(), g, v.i); break; }
                case 'd': { double g = x ? x->get_double(n) : nx_options_get_double(c, n.c_str()); if (g != v.d) return fmt("option %s is %.17g, expected %.17g", n.c_str(), g, v.d); break; }
                default: {
                    if (x) { std::string g = x->get_string(n); if (g != v.str) return fmt("option %s is '%s', expected '%s'", n.c_str(), g.c_str(), v.str.c_str()); break; }
                    const char *g = nx_options_get_string(c, n.c_str());
                    if ((g == nullptr) != v.null || (g && v.str != g)) return fmt("option %s is '%s', expected '%s'", n.c_str(), g ? g : "(null)", v.null ? "(null)" : v.str.c_str()); }
                }
            }
        }
        std::vector<std::string> rest;
        if (x) rest = x->get_rest(); else { char **p = nx_options_get_rest(c); for (; p && *p; ++p) rest.push_back(*p); }
        if (rest != r.rest) { std::string e; for (auto &s : rest) e += "'" + s + "' "; e += "; expected "; for (auto &s : r.rest) e += "'" + s + "' "; return "left over arguments: " + e; }
        return "";
    }
};
static uint64_t ohash(const Outcome &r) { uint64_t h = r.kind; for (auto &v : r.v) { h = mix(h, v.set * 2 + v.b); h = mix(h, v.i); h = mix(h, hash_bytes(&v.d, 8)); h = mix(h, hash(v.str)); } for (auto &s : r.rest) h = mix(h, hash(s)); return h; }
static std::string show(const std::vector<std::string> &a) { std::string s; for (auto &x : a) s += "'" + esc(x) + "' "; return s; }

static std::vector<Cfg> configs() {
    auto mk = [](char t, const char *s, const char *l, bool req) { O o; o.type = t; o.s = s; o.l = l; o.req = req; o.i = -5; o.d = 0.25; o.str = "dflt"; return o; };
    std::vector<Cfg> cs;
    for (int rest = 0; rest < 3; ++rest) for (int help = 0; help < 2; ++help) for (int req = 0; req < 6; ++req) {
        Cfg c; c.rest = rest; c.help = help;
        c.o = {mk('b', "-v", "--verbose", req == 1), mk('i', "-n", "--num", req == 2), mk('d', "", "--scale", req == 3), mk('s', "-o", "--output", req == 4)};
        if (req == 5) { c.o[0].b = true; c.o[3].null_default = true; c.o[3].str = ""; c.o[1].s = ""; c.o[2].s = "-s"; c.o[2].l = ""; }
        cs.push_back(c);
    }
    return cs;
}
static const char *TOK[] = {"-v", "--verbose", "-n", "--num", "--scale", "-s", "-o", "--output", "3", "-7", "1.5e1", "x", "", "-h", "--help", "-vn", "--numx", "--", "-"};
static const int NT = sizeof TOK / sizeof *TOK;

static void run(const Cfg &c, const std::vector<std::vector<std::string>> &parses, bool cxx) {
    describe([&] { std::string s = fmt("rest=%d help=%d %s:", c.rest, c.help, cxx ? "C++" : "C"); for (auto &a : parses) s += " parse[" + show(a) + "]"; return s; });
    if (cxx) for (auto &o : c.o) if (o.null_default) return; // std::string can not be null
    size_t h0 = heap(); bool all = false;
    {
    Api api(c, cxx, false);
    { Outcome d; for (auto &o : c.o) d.v.push_back(defv(o)); std::string e = api.diff(c, d); if (!e.empty()) { fail("before parsing: %s", e.c_str()); return; } }
    for (auto &a : parses) {
        Outcome r = ref(c, a);
        std::vector<std::string> warned; warnings = &warned; int k = api.parse(a); warnings = nullptr;
        state(ohash(r));
        if (k != r.kind) { fail("arguments %s: outcome %d, expected %d (0 accepted, 1 fatal error, 2 exit after usage)", show(a).c_str(), k, r.kind); return; }
        if (k) return;
        std::string e = api.diff(c, r);
        if (!e.empty()) { fail("arguments %s: %s", show(a).c_str(), e.c_str()); return; }
        if (r.unused.empty() && !warned.empty()) { fail("arguments %s: warning \"%s\" without an unused argument", show(a).c_str(), warned[0].c_str()); return; }
        for (auto &u : r.unused) { bool f = false; for (auto &w : warned) f |= w.find(u) != std::string::npos; if (!f) { fail("arguments %s: no warning about '%s'", show(a).c_str(), u.c_str()); return; } }
    }
    all = true;
    }
    if (all && heap() != h0) fail("options leak %ld bytes", (long)(heap() - h0));
}
static std::string cap(const std::function<void(FILE *)> &f) { char *b = nullptr; size_t n = 0; FILE *s = open_memstream(&b, &n); f(s); fclose(s); std::string r(b, n); free(b); return r; }

void mc_run() {
    auto cs = configs();
    auto argvs = [&](int len, uint64_t k) { std::vector<std::string> a{"prog"}; for (int i = 0; i < len; ++i) { a.push_back(TOK[k % NT]); k /= NT; } return a; };
    int L = pick(3, 4);
    for (size_t ci = 0; ci < cs.size(); ++ci) for (int len = 0; len <= L; ++len) {
        uint64_t n = 1; for (int i = 0; i < len; ++i) n *= NT;
        for (uint64_t k = 0; k < n; ++k) for (int cxx = 0; cxx < 2; ++cxx) {
            if (len == L && cxx != (int)(k & 1)) continue;
            if (begin("argument-vectors")) run(cs[ci], {argvs(len, k)}, cxx);
        }
    }
    // parsing again forgets the first parse: all pairs of vectors of up to 2 arguments on one configuration, up to 1 on the others
    for (size_t ci = 0; ci < cs.size(); ++ci) {
        int M = (ci == 7 || ci == 23 || ci == 35) ? 2 : pick(1, 2);
        std::vector<std::vector<std::string>> av; for (int len = 0; len <= M; ++len) { uint64_t n = 1; for (int i = 0; i < len; ++i) n *= NT; for (uint64_t k = 0; k < n; ++k) av.push_back(argvs(len, k)); }
        for (auto &a : av) { if (ref(cs[ci], a).kind) continue; for (auto &b : av) if (begin("parse-twice")) run(cs[ci], {a, b, a}, ci & 1); }
    }
    // longer vectors: an option repeated, values that look like options
    for (size_t ci = 0; ci < cs.size(); ci += 5) for (int n = 1; n <= 40; ++n) for (int v = 0; v < 3; ++v)
        if (begin("long-vectors")) {
            std::vector<std::string> a{"p"};
            for (int i = 0; i < n; ++i) { if (v == 0) { a.push_back(i & 1 ? "--num" : "--output"); a.push_back(i & 2 ? "-v" : fmt("%d", i * 1000 - 7)); } else if (v == 1) a.push_back(fmt("file%d", i)); else { a.push_back("--output"); a.push_back("--output"); a.push_back(fmt("f%d", i)); } }
            run(cs[ci], {a}, ci & 1);
        }
    // many arguments and long values
    {
        std::vector<int> SZ; for (int b = 64; b <= pick(4096, 65536); b *= 2) for (int d : {-1, 0, 1, b / 4 + 3}) SZ.push_back(b + d);
        for (int n : SZ) for (int v = 0; v < 6; ++v) for (int cxx = 0; cxx < 2; ++cxx) if (begin("large-vectors")) {
            std::vector<std::string> a{"p"}; const Cfg &c = cs[cs.size() / 3 + (v & 1) * 5]; // optional rest
            if (v == 0) { a.push_back("-o"); a.push_back(std::string(n, 'v')); a.push_back(std::string(n + 1, 'r')); }
            else if (v == 1) { for (int i = 0; i < n; ++i) a.push_back(fmt("rest%d", i)); a.push_back("--verbose"); }
            else if (v == 2) { for (int i = 0; i < n; ++i) { a.push_back("--num"); a.push_back(fmt("%d", i)); } a.push_back("x"); }
            else if (v == 3) { a.push_back("--num"); a.push_back(std::string(n, '0') + "42"); a.push_back("--scale"); a.push_back("0." + std::string(n, '0') + "5"); a.push_back("--output"); a.push_back(""); }
            else if (v == 4) { a.push_back("--" + std::string(n, 'u')); a.push_back("-" + std::string(n, 'v')); a.push_back("--num"); a.push_back("8"); }
            else { for (int i = 0; i < n; ++i) { a.push_back(i % 3 ? "-v" : fmt("f%d", i)); if (i % 7 == 0) { a.push_back("--output"); a.push_back(fmt("o%d", i)); } } }
            run(c, {a, {"p", "z"}, a}, cxx);
        }
    }
    // integer and real values
    static const char *NUM[] = {"0", "-0", "2147483647", "-2147483648", "007", "+5", " 12", "12abc", "abc", "0x10", "1e3", ".5", "-.5e-3", "1e308", "3.", "4 5", "1e-320", "-1", "99"};
    for (const char *s : NUM) for (int cxx = 0; cxx < 2; ++cxx) for (int w = 0; w < 2; ++w)
        if (begin("number-values")) run(cs[0], {{"p", w ? "--scale" : "-n", s}}, cxx);
    // every default of every type, through all sequences of three parses that give or omit the option
    {
        static const int ID[] = {INT_MIN, -5, -1, 0, 1, 42, INT_MAX}; static const double DD[] = {-1e300, -2.5, -0.0, 0.0, 1e-310, 0.25, 7, INFINITY}; static const char *SD[] = {nullptr, "", "a", "-v", "default text with blanks", "0"};
        static const char *IV[] = {nullptr, "3", "-7", "0", "2147483647", "-2147483648"}; static const char *DV[] = {nullptr, "0.5", "-7.25", "0", "1e200", "-1e-5"}; static const char *SV[] = {nullptr, "x", "", "another value", "a", "--yes"};
        auto all = [&](O o, const char *const *vals, int nv) {
            for (int k = 0; k < nv * nv * nv; ++k) for (int cxx = 0; cxx < 2; ++cxx) for (int req = 0; req < 2; ++req) if (begin("default-values")) {
                Cfg c; c.rest = 1; o.req = req; O p = o; p.req = false; p.s = "-p"; p.l = "--pp"; c.o = {o, p};
                std::vector<std::vector<std::string>> ps; int r = k;
                for (int i = 0; i < 3; ++i) { std::vector<std::string> a{"prog"}; const char *v = vals[r % nv]; r /= nv; if (v) { a.push_back(i & 1 ? o.l : o.s); if (o.type != 'b') a.push_back(v); if (i == 1) { a.push_back("-p"); if (o.type != 'b') a.push_back(v); } } ps.push_back(a); }
                run(c, ps, cxx);
            }
        };
        O o; o.s = "-q"; o.l = "--quux";
        o.type = 'b'; for (bool b : {false, true}) { o.b = b; all(o, IV, 2); } o.b = false;
        o.type = 'i'; for (int i : ID) { o.i = i; all(o, IV, 6); } o.i = 0;
        o.type = 'd'; for (double d : DD) { o.d = d; all(o, DV, 6); } o.d = 0;
        o.type = 's'; for (const char *t : SD) { o.null_default = !t; o.str = t ? t : ""; all(o, SV, 6); }
    }
    // many options, with colliding names ("Aa" and "BB" hash alike, also as prefixes)
    for (int n = 1; n <= pick(80, 300); ++n) for (int used = 0; used < n; used += 1 + n / 8)
        if (begin("many-options")) {
            Cfg c; c.rest = 1;
            for (int i = 0; i < n; ++i) {
                std::string nm = "--"; for (int b = 0; b < 9; ++b) if ((n >> b) || b < 4) nm += (i >> b & 1) ? "Aa" : "BB";
                O o; o.type = "bids"[i % 4]; o.l = nm; o.i = i; o.d = i + .5; o.str = fmt("s%d", i); c.o.push_back(o);
            }
            std::vector<std::string> a{"p", c.o[used].l}; if (c.o[used].type != 'b') a.push_back("42");
            run(c, {a, {"p"}}, n & 1);
        }
    // short names of every character, long names of every length
    // names of which one is a prefix of the other, or which differ in few characters (with equal 31-polynomial hash), at every length
    for (int len = 0; len <= pick(70, 300); ++len) for (int sfx = 0; sfx < 3; ++sfx) for (int cxx = 0; cxx < 2; ++cxx) if (begin("similar-names")) {
        std::string pre = "--", suf(sfx * 7, 'z'); for (int i = 0; i < len; ++i) pre += "abcdefghij-"[i % 11];
        Cfg c; c.rest = 1;
        const char *D[] = {"AaAa", "BBBB", "AaBB", "Aa", "BB"};
        for (int i = 0; i < 5; ++i) { O o; o.type = i == 3 ? 's' : 'i'; o.l = pre + D[i] + suf; o.i = 50 + i; o.str = "d"; c.o.push_back(o); }
        std::vector<std::string> all = {pre + "AaAa" + suf, pre + "BBBB" + suf, pre + "AaBB" + suf, pre + "Aa" + suf, pre + "BB" + suf, pre + "BBAa" + suf, pre, pre + suf + "Aa", pre + "AaAa" + suf + "z"};
        for (size_t i = 0; i < all.size(); ++i) for (size_t j = 0; j < all.size(); ++j) run(c, {{"p", all[i], "7", all[j], "9"}}, cxx);
    }
    for (int ch = 1; ch < 256; ++ch) if (begin("names")) {
        if (ch == '|') continue;
        Cfg c; O o; o.type = 'i'; o.s = std::string("-") + (char)ch; o.i = 1; c.o = {o}; c.rest = 1;
        run(c, {{"p", o.s, "9", "r"}}, false);
    }
    for (int len = 1; len <= pick(200, 1500); ++len) if (begin("names")) {
        Cfg c; O o; o.type = 's'; o.l = "--" + std::string(len, 'a' + len % 26); o.s = "-z"; o.str = std::string(len * 3, 'q'); c.o = {o}; c.rest = 1;
        run(c, {{"p", o.l, std::string(len * 2, 'w'), o.l.substr(0, o.l.size() - 1), o.l + "a"}}, len & 1);
        std::string u;
        Api api(c, false, true);
        u = cap([&](FILE *f) { nx_options_print_values(api.c, f); nx_options_print_usage(api.c, f); });
        if (u.find(o.l) == std::string::npos || u.find("-z") == std::string::npos) fail("usage does not list %s", o.l.c_str());
    }
    // refused definitions
    struct { const char *a, *b; bool ok; } DEF[] = {{"-a", "-a", false}, {"-a|--all", "--all", false}, {"-a|--all", "-a", false}, {"--all", "-b|--all", false}, {"-a|--all", "-a|--other", false}, {"-a", "-b", true}, {"--aa", "--ab", true}, {"-A", "-a", true}, {"--Aa", "--BB", true},
        {"-a", "a", false}, {"-a", "all", false}, {"-a", "-bc", false}, {"-a", "", false}, {"-a", "-", false}, {"-a", "-b|-", false}, {"-a", "-b|xyz", false}};
    for (auto &d : DEF) for (int t1 = 0; t1 < 4; ++t1) for (int t2 = 0; t2 < 4; ++t2) if (begin("definitions")) {
        describe([&] { return fmt("define %s then %s", d.a, d.b); });
        NXOptions *o = nx_options_alloc();
        auto add = [&](int t, const char *n) { switch (t) { case 0: nx_options_add(o, "b", n, "h", NX_FALSE); break; case 1: nx_options_add(o, "i", n, "h", 1); break; case 2: nx_options_add(o, "d", n, "h", 1.0); break; default: nx_options_add(o, "s", n, "h", "x"); } };
        bool ok = guarded([&] { add(t1, d.a); }) && guarded([&] { add(t2, d.b); });
        step();
        if (ok != d.ok) fail("defining options '%s' and '%s' is %s", d.a, d.b, ok ? "accepted" : "refused");
        state(mix(t1, t2)); // refused definitions leave the options unusable: not freed
        if (ok) nx_options_free(o);
    }
    for (int f = 1; f < 256; ++f) if (begin("format-characters")) {
        if (strchr("bidsrBIDSR", f)) continue;
        char s[2] = {(char)f, 0};
        NXOptions *o = nx_options_alloc();
        if (guarded([&] { nx_options_add(o, s, "-a", "h", 1); })) fail("option type character %d accepted", f);
        step(); nx_options_free(o);
    }
    // typed access: the wrong getter, an unknown name
    for (int t = 0; t < 4; ++t) for (int g = 0; g < 5; ++g) for (int nm = 0; nm < 5; ++nm) for (int cxx = 0; cxx < 2; ++cxx) if (begin("typed-access")) {
        static const char *N[] = {"-a", "--all", "--al", "-b", "all"};
        Cfg c; O o; o.type = "bids"[t]; o.s = "-a"; o.l = "--all"; c.o = {o}; c.rest = 1;
        Api api(c, cxx, false);
        bool want = nm < 2 && (g == t || g == 4);
        const char *n = N[nm];
        bool got = guarded([&] { switch (g) { case 0: cxx ? (void)api.x->get_bool(n) : (void)nx_options_get_bool(api.c, n); break; case 1: cxx ? (void)api.x->get_int(n) : (void)nx_options_get_int(api.c, n); break;
            case 2: cxx ? (void)api.x->get_double(n) : (void)nx_options_get_double(api.c, n); break; case 3: if (cxx) (void)api.x->get_string(n); else (void)nx_options_get_string(api.c, n); break; default: cxx ? (void)api.x->is_set(n) : (void)nx_options_is_set(api.c, n); } });
        step();
        if (got != want) fail("reading option %s of type %c as %d is %s", n, "bids"[t], g, got ? "accepted" : "refused");
    }
    // usage and value listings mention every option, its help, header, footer and values
    for (size_t ci = 0; ci < cs.size(); ++ci) for (int cxx = 0; cxx < 2; ++cxx) if (begin("listings")) {
        Cfg c = cs[ci]; if (cxx && c.o[3].null_default) { c.o[3].null_default = false; }
        Api api(c, cxx, false);
        auto use = [&](bool vals) { return cap([&](FILE *f) { if (cxx) vals ? api.x->print_values(f) : api.x->print_usage(f); else vals ? nx_options_print_values(api.c, f) : nx_options_print_usage(api.c, f); }); };
        for (const char *old : {"earlier header\n", "a much longer earlier header than the one that is shown\n", ""}) { if (cxx) { api.x->set_usage_header(old); api.x->set_usage_footer(old); } else { nx_options_set_usage_header(api.c, old); nx_options_set_usage_footer(api.c, old); } }
        if (cxx) { api.x->set_usage_header("HEAD\n"); api.x->set_usage_footer("FOOT\n"); } else { nx_options_set_usage_header(api.c, "HEAD\n"); nx_options_set_usage_footer(api.c, "FOOT\n"); }
        std::string n = c.o[1].l, d = c.o[2].l.empty() ? c.o[2].s : c.o[2].l, s = c.o[3].l;
        std::vector<std::string> a{"theprog", "-v", n, "77", d, "2.5", s, "some text", "left"};
        int k = api.parse(a); if (k) { fail("parse of %s: %d", show(a).c_str(), k); continue; }
        std::string u = use(false), v = use(true);
        auto has = [&](const std::string &t, const std::string &w, const char *what) { if (t.find(w) == std::string::npos) fail("%s does not show '%s':\n%s", what, w.c_str(), t.c_str()); };
        if (u.find("earlier") != std::string::npos) fail("usage shows a replaced header");
        has(u, "HEAD\n", "usage"); has(u, "FOOT\n", "usage"); has(u, "theprog", "usage");
        for (auto &o : c.o) { if (!o.s.empty()) { has(u, o.s, "usage"); has(v, o.s, "values"); } if (!o.l.empty()) { has(u, o.l, "usage"); has(v, o.l, "values"); } std::string nn = o.s.empty() ? o.l : o.l.empty() ? o.s : o.s + "|" + o.l; has(u, "help of " + nn, "usage"); if (o.req) has(u, "REQUIRED", "usage"); }
        has(v, "77", "values"); has(v, "2.5", "values"); has(v, "some text", "values"); has(v, "true", "values");
        if (c.rest) { has(v, "left", "values"); has(u, "files", "usage"); }
        if (c.help) has(u, "--help", "usage");
    }
    // string values and defaults of every length are shown, up to the thousand characters the listings have room for
    for (int len = 0; len <= 1000; len += len < 140 ? 1 : 43) for (int cxx = 0; cxx < 2; ++cxx) for (int set = 0; set < 2; ++set) if (begin("listed-values")) {
        describe([&] { return fmt("string of %d characters, %s", len, set ? "given" : "default"); });
        Cfg c; O o; o.type = 's'; o.l = "--text"; std::string t; for (int i = 0; i < len; ++i) t += 'a' + (i * 7 + i / 26) % 26; o.str = set ? "other" : t; c.o.push_back(o); O n; n.type = 'i'; n.s = "-i"; n.i = len * 1000 - 3; c.o.push_back(n); O d; d.type = 'd'; d.s = "-d"; d.d = len * 0.25; c.o.push_back(d);
        Api api(c, cxx, false); int k = api.parse(set ? std::vector<std::string>{"p", "--text", t} : std::vector<std::string>{"p"}); if (k) { fail("parse: %d", k); continue; }
        for (int vals = 0; vals < 2; ++vals) {
            std::string l = cap([&](FILE *f) { if (cxx) vals ? api.x->print_values(f) : api.x->print_usage(f); else vals ? nx_options_print_values(api.c, f) : nx_options_print_usage(api.c, f); }); state(hash(l));
            for (std::string w : {"'" + (vals ? t : c.o[0].str) + "'", fmt("%d", n.i), fmt("%g", d.d)}) if (l.find(w) == std::string::npos) fail("%s does not show '%s':\n%s", vals ? "value listing" : "usage", w.c_str(), l.c_str());
        }
    }
    // real values and defaults are shown with (at least) six decimals
    { std::vector<double> ds{0, 1, -1, 0.5, 0.125, 0.000001, 0.000123, 123.456789, 1234567, 1234567.25, -98765432.5, 1e9, 1e12 + 0.5, 1e15, -1e17, 1e22, 3.141592653589793};
      for (size_t di = 0; di < ds.size(); ++di) for (int cxx = 0; cxx < 2; ++cxx) for (int set = 0; set < 2; ++set) for (int vals = 0; vals < 2; ++vals) if (begin("listed-reals")) {
        describe([&] { return fmt("%.17g %s, %s", ds[di], set ? "given" : "default", vals ? "values" : "usage"); });
        Cfg c; O o; o.type = 'd'; o.l = "--real"; o.d = set && vals ? 4 : ds[di]; c.o.push_back(o);
        Api api(c, cxx, false); int k = api.parse(set && vals ? std::vector<std::string>{"p", "--real", fmt("%.17g", ds[di])} : std::vector<std::string>{"p"}); if (k) { fail("parse: %d", k); continue; }
        std::string l = cap([&](FILE *f) { if (cxx) vals ? api.x->print_values(f) : api.x->print_usage(f); else vals ? nx_options_print_values(api.c, f) : nx_options_print_usage(api.c, f); }); state(hash(l)); step();
        bool ok = false; size_t at = l.find("--real"); if (at != std::string::npos) for (const char *q = l.c_str() + at + 6; *q; ) { char *e; double x = strtod(q, &e); if (e == q) ++q; else { ok |= fabs(x - ds[di]) <= 5.1e-7 + fabs(ds[di]) * 1e-15; q = e; } }
        if (!ok) fail("%s of a real %.17g:\n%s", vals ? "value listing" : "usage", ds[di], l.c_str()); }
    }
    // nothing but a help switch, at every place
    for (int n = 0; n <= 6; ++n) for (int at = -1; at < n; ++at) for (int lg = 0; lg < 2; ++lg) for (int rest = 0; rest < 3; ++rest) for (int no = 0; no < 2; ++no) for (int cxx = 0; cxx < 2; ++cxx) if (begin("help-only")) {
        Cfg c; c.help = true; c.rest = rest; if (no) { O o; o.type = 'b'; o.s = "-v"; c.o.push_back(o); }
        std::vector<std::string> a{"p"}; for (int i = 0; i < n; ++i) a.push_back(i == at ? lg ? "--help" : "-h" : fmt("x%d", i)); run(c, {a}, cxx);
    }
    for (size_t ci = 5; ci < cs.size(); ci += 6) if (begin("leaks")) {
        size_t h[3];
        for (int k = 0; k < 3; ++k) { { Api api(cs[ci], false, false); api.parse({"p", "-o", "xx", "r1", "-v", "r2", "-n", "5"}); api.parse({"p", "-o", "xxx", "r", "-n", "5"}); nx_options_set_usage_header(api.c, "h"); nx_options_set_usage_header(api.c, "i"); cap([&](FILE *f) { nx_options_print_usage(api.c, f); nx_options_print_values(api.c, f); }); } h[k] = heap(); }
        if (h[1] != h[2]) fail("options leak %ld bytes per life cycle", (long)(h[2] - h[1]));
    }
}
