#include <pthread.h>
// P04: JSON text <-> tree.  P05: bundles and the JSON log.  P06: the character lexer.
#define NX_ENABLE_JLOG 1
#include "json_model.hh"
extern "C" {
#include "virg/nexus/nx_json_bundle.h"
#include "virg/nexus/nx_json_log.h"
#include "virg/nexus/nx_lexer.h"
#include "virg/nexus/nx_json_lexer.h"
#include "virg/nexus/nx_csv_lexer.h"
#include "virg/nexus/nx_string_array.h"
}
#include <climits>
#include <cmath>
#include <cfloat>
using namespace mc;
typedef std::string S_;

static void check_text(const std::string &t, bool stream, bool reprint) {
    describe([&] { return "JSON text: " + esc(t.substr(0, 300)); });
    J m; int want = JReader(t).doc(m);
    bool ok; NXJSONNode *n = jparse(t, stream, ok);
    step();
    if (want == 1 && !ok) { fail("valid text rejected: %s", esc(t.substr(0, 300)).c_str()); return; }
    if (want == 0 && ok) { fail("malformed text accepted: %s", esc(t.substr(0, 300)).c_str()); nx_json_tree_free(n); return; }
    if (want == 0) state(0ull);
    if (want == 1) {
        std::string d = jdiff(m, n);
        if (!d.empty()) fail("text %s: %s", esc(t.substr(0, 300)).c_str(), d.c_str());
        state(jhash(m));
        if (reprint) {
            std::string p = jprint(n, 2);
            J m2; if (JReader(p).doc(m2) != 1 || !jeq(m, m2)) fail("text %s printed as %s", esc(t.substr(0, 300)).c_str(), esc(p.substr(0, 300)).c_str());
        }
    }
    if (ok) nx_json_tree_free(n);
}
static void check_tree(const J &m) {
    describe([&] { return "tree " + jshow(m); });
    for (int how = 0; how < 2; ++how) {
        NXJSONNode *n;
        if (how == 0) n = jbuild(m); else { n = m.type == NX_JNT_ARRAY ? nx_json_node_new_array() : nx_json_node_new_object(); jfill(m, n); }
        std::string d = jdiff(m, n);
        if (!d.empty()) fail("built tree: %s", d.c_str());
        for (int lv = 0; lv <= 3; ++lv) {
            std::string p = jprint(n, lv);
            J m2;
            if (JReader(p).doc(m2) != 1 || !jeq(m, m2)) { fail("tree %s printed at level %d as %s", jshow(m).c_str(), lv, esc(p).c_str()); break; }
            if (how == 0) {
                bool ok; NXJSONNode *r = jparse(p, lv & 1, ok);
                if (!ok) { fail("printed tree can not be read back: %s", esc(p).c_str()); break; }
                d = jdiff(m, r);
                if (!d.empty()) fail("tree %s printed and read back: %s", jshow(m).c_str(), d.c_str());
                nx_json_tree_free(r);
            }
        }
        nx_json_tree_free(n);
    }
    state(jhash(m));
}
// all trees with at most `budget` nodes below the root
static void gen(int budget, int depth, const std::function<void(const J &, int)> &out) {
    static const std::vector<J> leaves = {jleaf(NX_JNT_STRING, "a\"\\\n"), jleaf(NX_JNT_INTEGER, "-7"), jleaf(NX_JNT_FPNUMBER, "1.5e-3"),
                                          jleaf(NX_JNT_TRUE), jleaf(NX_JNT_FALSE), jleaf(NX_JNT_NULL), jleaf(NX_JNT_STRING, "")};
    for (auto &l : leaves) out(l, budget - 1);
    if (depth <= 0) return;
    static const char *NM[] = {"a", "", "a", "b\t"};
    for (int type : {NX_JNT_ARRAY, NX_JNT_OBJECT}) {
        std::function<void(J &, int)> rec = [&](J &j, int left) {
            out(j, left);
            if (left <= 0) return;
            gen(left, depth - 1, [&](const J &k, int l2) {
                if (l2 < 0) return;
                j.kids.push_back(k); if (type == NX_JNT_OBJECT) j.names.push_back(NM[j.names.size() % 4]);
                rec(j, l2);
                j.kids.pop_back(); if (type == NX_JNT_OBJECT) j.names.pop_back();
            });
        };
        J j; j.type = type; rec(j, budget - 1);
    }
}

// every combination of lengths of the parts of a number
static void number_shapes(const std::function<void(const std::string &)> &f) {
    auto digits = [](int n, int from) { std::string s; for (int i = 0; i < n; ++i) s += '0' + (from + i * 3) % 10; return s; };
    for (const char *sign : {"", "-"}) for (int il = 0; il <= 22; ++il) for (int fl : {0, 1, 2, 5, 9, 10, 17, 25}) for (const char *e : {"", "e", "E", "e+", "E-", "E+", "e-"}) for (int el : {1, 2, 3, 9, 10, 20}) {
        if (!*e && el > 1) continue;
        f(sign + (il ? digits(il, 7) : std::string("0")) + (fl ? "." + digits(fl, 0) : "") + (*e ? e + digits(el, el > 2 ? 0 : 1) : ""));
    }
}
// on a thread with a stack of its own size
static void on_stack(size_t size, const std::function<void()> &f) {
    pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, size); pthread_t t;
    if (pthread_create(&t, &a, [](void *x) -> void * { (*(const std::function<void()> *)x)(); return nullptr; }, (void *)&f)) { fail("no thread"); return; }
    pthread_join(t, nullptr); pthread_attr_destroy(&a);
}
static void p04() {
    { // token sequences
        static const char *T[] = {"[", "]", "{", "}", ",", ":", "\"a\"", "-1", "true", " ", "2e3"};
        const int NT = 11; int L = pick(6, 7);
        for (int len = 0; len <= L; ++len) {
            uint64_t n = 1; for (int i = 0; i < len; ++i) n *= NT;
            for (uint64_t k = 0; k < n; ++k) {
                // a document can only start with a bracket; other starts are covered up to length 3
                if (len > 3 && (k % NT) != 0 && (k % NT) != 2) continue;
                if (begin("token-sequences")) { std::string t; uint64_t v = k; for (int i = 0; i < len; ++i) { t += T[v % NT]; v /= NT; } check_text(t, false, true); }
            }
        }
    }
    auto all = [&](const char *grp, const char *pre, const std::string &A, int L, const char *post) {
        for (int len = 0; len <= L; ++len) {
            uint64_t n = 1; for (int i = 0; i < len; ++i) n *= A.size();
            for (uint64_t k = 0; k < n; ++k)
                if (begin(grp)) { std::string s = pre; uint64_t v = k; for (int i = 0; i < len; ++i) { s += A[v % A.size()]; v /= A.size(); } check_text(s + post, false, true); }
        }
    };
    all("string-contents", "[\"", std::string("a\"\\nt/ \xff"), pick(5, 6), "\"]");
    all("string-in-object", "{\"", std::string("a\"\\b,:"), pick(5, 6), "\":[]}");
    all("numbers", "[", std::string("01-+.eE"), pick(6, 7), "]");
    all("number-then", "[", std::string("19-.e ,"), pick(5, 6), "}");
    all("literals", "[", std::string("truefalsn"), 4, "]");
    for (const char *lit : {"true", "false", "null"})
        for (size_t cut = 0; cut <= strlen(lit); ++cut) for (int c = 0; c < 256; ++c)
            if (begin("literal-mutations")) {
                std::string s = lit; if (c) { if (cut < s.size()) s[cut] = (char)c; else s += (char)c; } else s = s.substr(0, cut);
                check_text("[" + s + "]", false, true);
            }
    for (int c = 1; c < 256; ++c) for (int k = 0; k < 4; ++k)
        if (begin("bytes")) { // every byte, at each structural place
            std::string x(1, (char)c);
            check_text(k == 0 ? "[\"" + x + "\"]" : k == 1 ? "[" + x + "]" : k == 2 ? "[\"\\" + x + "\"]" : x + "[]", false, true);
        }
    // truncations of a document using everything
    std::string doc = "{\"k\" : [1, -2.5E+3, \"s\\n\\\"\", true, false, null, {}, []],\r\n\t\"m\":{\"x\":0.5}}";
    for (size_t cut = 0; cut <= doc.size(); ++cut) if (begin("truncations")) check_text(doc.substr(0, cut), cut & 1 && cut, true);
    for (size_t at = 0; at < doc.size(); ++at) for (char c : std::string("[]{},:\"1a\\ "))
        for (int ins = 0; ins < 2; ++ins)
            if (begin("mutations")) { std::string t = doc; if (ins) t.insert(at, 1, c); else t[at] = c; check_text(t, false, true); }
    gen(pick(5, 6), 3, [&](const J &j, int left) { if (left >= 0 && (j.type & NX_JNT_COMPOSITE) && begin("trees")) check_tree(j); });
    for (int d = 1; d <= pick(120, 600); ++d) for (int ob = 0; ob < 2; ++ob)
        if (begin("depth")) { std::string t; for (int i = 0; i < d; ++i) t += ob ? "{\"a\":" : "["; t += "1"; for (int i = 0; i < d; ++i) t += ob ? "}" : "]"; check_text(t, d & 1, true); }
    for (int w = 0; w <= pick(150, 600); ++w) for (int ob = 0; ob < 2; ++ob)
        if (begin("width")) {
            J m; m.type = ob ? NX_JNT_OBJECT : NX_JNT_ARRAY;
            for (int i = 0; i < w; ++i) { m.kids.push_back(i % 3 ? jleaf(NX_JNT_INTEGER, fmt("%d", i)) : jleaf(NX_JNT_STRING, fmt("v%d", i))); if (ob) m.names.push_back(fmt("n%d", i)); }
            check_tree(m);
        }
    static const int SZ[] = {127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097};
    for (int n : SZ) for (int kind = 0; kind < 10; ++kind) if (begin("large")) {
        std::string t; auto rep = [](const std::string &x, int n) { std::string o; for (int i = 0; i < n; ++i) o += x; return o; };
        switch (kind) {
        case 0: if (n > 1100) continue; t = rep("[", n) + rep("]", n); break;
        case 1: if (n > 1100) continue; t = rep("{\"k\":", n) + "[]" + rep("}", n); break;
        case 2: t = "[1" + rep(",1", n - 1) + "]"; break;
        case 3: t = "{\"" + std::string(n, 'k') + "\":[\"" + std::string(n - 1, 's') + "\"]}"; break;
        case 4: t = "[" + std::string(n, '1') + "]"; break;
        case 5: t = "[0." + std::string(n, '3') + "]"; break;
        case 6: t = "[" + std::string(n, ' ') + "1" + std::string(n, '\n') + "]"; break;
        case 7: t = "[\"" + rep("\\\\", n) + "\"]"; break;
        case 8: t = "[" + rep("[],", n) + "{}]"; break;
        default: { t = "{"; for (int i = 0; i < n; ++i) t += fmt("%s\"n%d\":%d", i ? "," : "", i, i); t += "}"; }
        }
        check_text(t, n & 1, true);
    }
    // nesting up to the limit is read, printed and freed, deeper texts are refused; any number of siblings
    for (int n : {1500, 5000, 9998, 9999, 10000, 10001, 10002, 20000, 100000, 1000000}) for (int kind = 0; kind < 6; ++kind) if (begin("deep")) on_stack(64 << 20, [&] { // instrumented frames are large
        describe([&] { return fmt("%d levels, kind %d", n, kind); });
        // arrays, objects, both, with siblings before and after, never closed, one closed too little
        std::string t, c2; auto ob = [&](int i) { return kind == 1 || (kind == 2 && i % 3 == 1); };
        for (int i = 0; i < n; ++i) t += ob(i) ? "{\"k\":" : kind == 3 ? "[[],{},1," : "[";
        int depth = n; if (kind >= 1 && kind <= 3) { t += "[]"; ++depth; }
        for (int i = n; i-- > 0;) if (kind != 4 && (kind != 5 || i)) c2 += ob(i) ? "}" : kind == 3 ? ",7]" : "]";
        t += c2; bool legal = kind < 4 && depth <= 10000; NXJSONNode *r = nullptr; size_t h0 = heap(); step(3);
        std::vector<char> buf(t.begin(), t.end()); buf.push_back(0);
        if (!guarded([&] { r = nx_json_tree_from_string(buf.data()); })) { if (legal) fail("a document of %d levels is refused", depth); else if (fatal_kind != 1) fail("wrong kind of error"); return; }
        if (!legal) { fail(kind < 4 ? "%d levels are accepted" : "an unclosed text of %d levels is accepted", depth); return; }
        NXJSONNode *x = r; int d = 1; for (;; ++d) { NXJSONNode *y = nx_json_node_is(x, NX_JNT_OBJECT) ? nx_json_object_get(x, "k", NX_JNT_COMPOSITE) : nx_json_array_get(x, kind == 3 ? 3 : 0, NX_JNT_COMPOSITE); if (!y) break; x = y; }
        if (d != depth) fail("%d levels are read as %d", depth, d);
        char *out = nullptr; size_t on = 0; FILE *f = open_memstream(&out, &on); nx_json_tree_fprint(f, r, 0); fclose(f); std::string back, want; for (char c : std::string(out, on)) if (c != ' ' && c != '\n') back += c; free(out); for (char c : t) want += c; if (back != want) fail("%d levels are not printed as read", depth);
        nx_json_tree_free(r); buf = {}; { std::string().swap(back); std::string().swap(want); } if (n <= 1500 && heap() > h0 + buf.capacity()) fail("%d levels leak", depth);
    });
    for (int n : {50000, 1000000, 3000000}) for (int ob = 0; ob < 3; ++ob) if (begin("many-siblings")) on_stack(8 << 20, [&] {
        describe([&] { return fmt("%d siblings, kind %d", n, ob); });
        std::string t = ob == 1 ? "{" : "["; for (int i = 0; i < n; ++i) { if (i) t += ","; t += ob == 1 ? "\"a\":1" : ob ? "[]" : "2"; } t += ob == 1 ? "}" : "]"; step(2);
        NXJSONNode *r = nullptr; if (!guarded([&] { r = nx_json_tree_from_string(&t[0]); })) { fail("%d siblings are refused", n); return; }
        int c = nx_json_node_n_children(r); if (c != (ob == 1 ? 2 * n : n)) fail("%d siblings are read as %d", n, c);
        char *out = nullptr; size_t on = 0; FILE *f = open_memstream(&out, &on); nx_json_tree_fprint(f, r, 0); fclose(f); size_t at = 0; bool ok = true; for (size_t i = 0; i < on && ok; ++i) if (out[i] != ' ' && out[i] != '\n') { ok = at < t.size() && (t[at] == out[i]); ++at; } if (!ok || at != t.size()) fail("%d siblings are not printed as read", n); free(out);
        nx_json_tree_free(r);
    });
    number_shapes([&](const std::string &t) { if (begin("number-shapes")) check_text("[" + t + "]", false, true); });
    // names that differ in one place or in their length only
    for (int n : {1, 2, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 5000}) for (int kind = 0; kind < 4; ++kind) if (begin("long-names")) {
        J m; m.type = NX_JNT_OBJECT; std::string base(n, 'x'); for (int i = 0; i < n; ++i) base[i] = 'a' + i % 26; base[n - 1] = '~';
        std::vector<std::string> names = {base}; if (kind == 0) { names.push_back(base); names[1][n - 1] = '!'; } else if (kind == 1) { names.push_back(base); names[1][0] = '!'; } else if (kind == 2) names.push_back(base + "k"); else names.push_back(base.substr(0, n - 1));
        names.push_back("last"); if (n % 2) std::swap(names[0], names[1]);
        for (size_t i = 0; i < names.size(); ++i) { m.names.push_back(names[i]); m.kids.push_back(jleaf(NX_JNT_INTEGER, fmt("%d", (int)i))); }
        describe([&] { return fmt("names of %d, kind %d", n, kind); });
        check_tree(m); NXJSONNode *t = jbuild(m);
        for (size_t i = 0; i < names.size(); ++i) { NXJSONNode *x = nx_json_object_get(t, names[i].c_str(), NX_JNT_INTEGER); step(); if (!x || fmt("%d", (int)i) != nx_json_node_text(x)) fail("member %d of names of %d, kind %d is not found", (int)i, n, kind); if (nx_json_object_get(t, (names[i] + "z").c_str(), NX_JNT_INTEGER)) fail("a member that is not there is found"); }
        nx_json_tree_free(t);
    }
    for (int len = 1; len <= pick(70, 300); ++len) for (int at = 0; at < len; ++at) for (const char *e : {"\\n", "\\\"", "\\\\", "\"", "\\u"}) if (begin("string-places")) {
        std::string w(len, 'x'); w.replace(at, 1, e); check_text("{\"" + w + "\":[\"" + w + "\"]}", at & 1, true);
    }
    for (int len = 2; len <= pick(2200, 8400); ++len)
        if (begin("stream-length")) { std::string s(len > 4 ? len - 4 : 0, 'x'); for (size_t i = 0; i < s.size(); ++i) s[i] = "abcdefg"[i % 7]; check_text(len > 4 ? "[\"" + s + "\"]" : len == 2 ? "[]" : "{ }", true, true); }
    // files: what is printed into one is read back from it; a missing or damaged one is refused
    for (int n : {0, 1, 2, 10, 100, 300, 1000, 5000}) for (int lv = 0; lv <= 3; ++lv) for (int k = 0; k < 3; ++k) if (begin("files")) {
        describe([&] { return fmt("file of %d elements printed at level %d", n, lv); });
        J m; m.type = k == 1 ? NX_JNT_OBJECT : NX_JNT_ARRAY; for (int i = 0; i < n; ++i) { if (k == 1) m.names.push_back(fmt("n%d", i)); if (k == 2 && i % 10 == 0) { J a; a.type = NX_JNT_OBJECT; a.names = {"x", "y"}; a.kids = {jleaf(NX_JNT_NULL), jleaf(NX_JNT_STRING, std::string(i % 130, 'w'))}; m.kids.push_back(a); } else m.kids.push_back(i % 3 ? jleaf(NX_JNT_INTEGER, fmt("%d", i)) : jleaf(NX_JNT_STRING, fmt("s\\%d", i))); }
        NXJSONNode *t = jbuild(m); std::string p = tmpfile("t.json"); FILE *f = fopen(p.c_str(), "w"); nx_json_tree_fprint(f, t, lv); fclose(f); nx_json_tree_free(t); std::string txt = read_file(p);
        NXJSONNode *r = nullptr; size_t h0 = heap(); if (!guarded([&] { r = nx_json_tree_from_file(p.c_str()); })) fail("own file is refused"); else { std::string d = jdiff(m, r); if (!d.empty()) fail("file read back: %s", d.c_str()); nx_json_tree_free(r); if (heap() != h0) fail("reading a file leaks"); }
        for (size_t cut : {txt.size() - 1 - (txt.size() > 1 && txt[txt.size() - 1] == '\n'), txt.size() / 2, (size_t)1, (size_t)0}) { if (cut >= txt.size()) continue; std::string q = txt.substr(0, cut); J mm; if (JReader(q).doc(mm) == 1) continue; write_file(p, q); r = nullptr; if (guarded([&] { r = nx_json_tree_from_file(p.c_str()); })) { fail("a file cut to %d of %d bytes is read", (int)cut, (int)txt.size()); nx_json_tree_free(r); } step(); }
        remove(p.c_str()); r = nullptr; if (guarded([&] { r = nx_json_tree_from_file(p.c_str()); })) fail("a missing file is read"); step(3); state(jhash(m)); }
    if (begin("leaks")) {
        size_t h[3];
        for (int k = 0; k < 3; ++k) { bool ok; { NXJSONNode *n = jparse(doc, true, ok); nx_json_tree_free(n); } h[k] = heap(); }
        if (h[1] != h[2]) fail("reading and freeing a document leaks %ld bytes", (long)(h[2] - h[1]));
    }
}

// ------------------------------------------------------------------ P05
static NXJSONNode *via_text(NXJSONNode *v, int lv) { // wrap, print, read back
    NXJSONNode *a = nx_json_node_new_array(); nx_json_array_add(a, v);
    std::string p = jprint(a, lv); nx_json_tree_free(a);
    bool ok; NXJSONNode *r = jparse(p, false, ok);
    if (!ok) { fail("bundled value printed as unreadable text %s", esc(p).c_str()); return nullptr; }
    return r;
}
static bool close6(double a, double b) { return std::fabs(a - b) <= 5.0e-7 * std::fabs(a) || a == b; }
template <class B, class U, class V, class E> static void scalar(B bundle, U unbundle, V v, E eq, const char *what) {
    for (int text = 0; text < 2; ++text) {
        NXJSONNode *n = bundle(v), *root = n;
        if (text) { root = via_text(n, 1); if (!root) return; n = nx_json_array_get(root, 0, JALL); }
        auto w = unbundle(n);
        step();
        if (!eq(v, w)) fail("%s does not survive bundling%s: %.17g became %.17g", what, text ? " and printing" : "", (double)v, (double)w);
        nx_json_tree_free(root);
        state(mix(hash(what), hash_bytes(&w, sizeof w)));
    }
}
static void p05() {
    for (int b = 0; b < 2; ++b) if (begin("scalars")) scalar(nx_json_bundle_bool, nx_json_unbundle_bool, (NXBool)b, [](auto a, auto c) { return a == c; }, "bool");
    for (int c = 1; c < 256; ++c) if (begin("scalars")) scalar(nx_json_bundle_char, nx_json_unbundle_char, (char)c, [](auto a, auto d) { return a == d; }, "char");
    for (int c = 0; c < 256; ++c) if (begin("scalars")) scalar(nx_json_bundle_uchar, nx_json_unbundle_uchar, (uchar)c, [](auto a, auto d) { return a == d; }, "uchar");
    for (int p = 0; p < 32; ++p) for (int d = -3; d <= 3; ++d) for (int sg = 0; sg < 2; ++sg) {
        int v = (int)(((1ll << p) + d) * (sg ? -1 : 1));
        if (begin("scalars")) scalar(nx_json_bundle_int, nx_json_unbundle_int, v, [](auto a, auto b) { return a == b; }, "int");
    }
    for (int p = 0; p < 64; ++p) for (int d = -2; d <= 2; ++d)
        if (begin("scalars")) scalar(nx_json_bundle_size_t, nx_json_unbundle_size_t, (size_t)((1ull << p) + d), [](auto a, auto b) { return a == b; }, "size");
    static const double MN[] = {1, 1.25, 1.5, 1.9999999, 1.0000001, 1.23456789012345, 1.1111111};
    for (int e = -1000; e <= 1000; e += pick(7, 1)) for (double mn : MN) for (int sg = -1; sg <= 1; sg += 2)
        if (begin("reals")) {
            double v = std::ldexp(mn, e) * sg;
            scalar(nx_json_bundle_double, nx_json_unbundle_double, v, close6, "double");
            if (std::fabs(v) < 1e37 && std::fabs(v) > 1e-37) scalar(nx_json_bundle_float, nx_json_unbundle_float, (float)v, [](float a, float b) { return close6(a, b) || std::fabs(a - b) <= 6e-7f * std::fabs(a); }, "float");
        }
    if (begin("reals")) { scalar(nx_json_bundle_double, nx_json_unbundle_double, 0.0, close6, "double"); scalar(nx_json_bundle_float, nx_json_unbundle_float, 0.0f, close6, "float"); }
    // unbundling clamps bytes
    for (int v = -300; v <= 600; ++v) if (begin("uchar-clamp")) {
        NXJSONNode *n = nx_json_bundle_int(v); int w = nx_json_unbundle_uchar(n); nx_json_tree_free(n); step();
        if (w != (v < 0 ? 0 : v > 255 ? 255 : v)) fail("%d read as byte %d", v, w);
    }
    std::vector<std::string> ss{""};
    { std::string A = "a\"\\\n\x01\xff/"; size_t b = 0; for (int l = 1; l <= pick(4, 5); ++l) { size_t e = ss.size(); for (size_t i = b; i < e; ++i) for (char c : A) ss.push_back(ss[i] + c); b = e; } }
    for (auto &s : ss) if (begin("strings")) {
        NXJSONNode *r = via_text(nx_json_bundle_string(s.c_str()), 0);
        if (r) { char *w = nx_json_unbundle_string(nx_json_array_get(r, 0, JALL)); if (s != w) fail("string '%s' became '%s'", esc(s).c_str(), esc(w).c_str()); nx_free(w); nx_json_tree_free(r); }
        step();
    }
    // arrays of every length
    std::vector<int> lens; for (int n = 0; n <= pick(60, 300); ++n) lens.push_back(n); for (int n : {100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2049, 4097}) lens.push_back(n);
    for (int n : lens) for (int text = 0; text < 2; ++text) {
        auto wrap = [&](NXJSONNode *v, auto use) {
            NXJSONNode *root = v; if (text) { root = via_text(v, n % 3); if (!root) return; v = nx_json_array_get(root, 0, NX_JNT_ARRAY); }
            if (!v) fail("bundled array is not an array"); else use(v);
            nx_json_tree_free(root); step();
        };
        if (begin("arrays")) {
            describe([&] { return fmt("arrays of %d, through text %d", n, text); });
            std::vector<int> iv(n); std::vector<float> fv(n); std::vector<double> dv(n); std::vector<std::string> sv(n); std::vector<char *> sp(n);
            for (int i = 0; i < n; ++i) { iv[i] = (i * 7919) ^ (i << 20); fv[i] = i * 0.37f - 3; dv[i] = i * 1.7e10 - 5; sv[i] = ss[(i * 13) % ss.size()]; sp[i] = (char *)sv[i].c_str(); }
            int k = -1;
            wrap(nx_json_bundle_int_array(n, iv.data()), [&](NXJSONNode *v) { int *o = nx_json_unbundle_int_array(v, &k); if (k != n || memcmp(o, iv.data(), n * sizeof(int))) fail("int array of %d", n); nx_free(o); });
            wrap(nx_json_bundle_float_array(n, fv.data()), [&](NXJSONNode *v) { float *o = nx_json_unbundle_float_array(v, &k); if (k != n) fail("float array length %d of %d", k, n); else for (int i = 0; i < n; ++i) if (!(close6(fv[i], o[i]) || std::fabs(fv[i] - o[i]) <= 6e-7f * std::fabs(fv[i]))) fail("float array [%d]: %g became %g", i, fv[i], o[i]); nx_free(o); });
            wrap(nx_json_bundle_double_array(n, dv.data()), [&](NXJSONNode *v) { double *o = nx_json_unbundle_double_array(v, &k); if (k != n) fail("double array length %d of %d", k, n); else for (int i = 0; i < n; ++i) if (!close6(dv[i], o[i])) fail("double array [%d]: %g became %g", i, dv[i], o[i]); nx_free(o); });
            wrap(nx_json_bundle_string_array(n, sp.data()), [&](NXJSONNode *v) {
                char **o = nx_json_unbundle_string_array(v, &k);
                if (k != n) fail("string array length %d of %d", k, n);
                for (int i = 0; i < k; ++i) { if (i < n && sv[i] != o[i]) fail("string array [%d]: '%s' became '%s'", i, esc(sv[i]).c_str(), esc(o[i]).c_str()); nx_free(o[i]); }
                nx_free(o);
                NXStringArray *sa = nx_json_unbundle_as_string_array(v);
                if (nx_string_array_size(sa) != n) fail("string list length %d of %d", nx_string_array_size(sa), n);
                else for (int i = 0; i < n; ++i) if (sv[i] != nx_string_array_get(sa, i)) fail("string list [%d]", i);
                nx_string_array_free(sa); });
            std::vector<NXKeypoint> kv(n);
            for (int i = 0; i < n; ++i) { kv[i].x = i - 5; kv[i].y = 3 * i; kv[i].xs = i * 1.25f; kv[i].ys = -i * .5f; kv[i].level = i % 8; kv[i].scale = 1.5f * i; kv[i].sigma = .125f * i; kv[i].score = 1000.f * i; kv[i].ori = i * .0625f; kv[i].id = 0x9e3779b97f4a7c15ull * i; }
            wrap(nx_json_bundle_keypoint_array(n, kv.data()), [&](NXJSONNode *v) {
                NXKeypoint *o = nx_json_unbundle_keypoint_array(v, &k);
                if (k != n) fail("keypoint array length %d of %d", k, n);
                else for (int i = 0; i < n; ++i) {
                    const NXKeypoint &a = kv[i], &b = o[i];
                    if (a.x != b.x || a.y != b.y || a.level != b.level || a.id != b.id || !close6(a.xs, b.xs) || !close6(a.ys, b.ys) || !close6(a.scale, b.scale) || !close6(a.sigma, b.sigma) || !close6(a.score, b.score) || !close6(a.ori, b.ori))
                        fail("keypoint %d does not survive bundling (id %llu -> %llu)", i, (unsigned long long)a.id, (unsigned long long)b.id);
                }
                nx_free(o); });
        }
    }
    // typed access to the wrong type aborts
    static const J kinds[] = {jleaf(NX_JNT_STRING, "s"), jleaf(NX_JNT_INTEGER, "1"), jleaf(NX_JNT_FPNUMBER, "1.5"), jleaf(NX_JNT_TRUE), jleaf(NX_JNT_FALSE), jleaf(NX_JNT_NULL), jleaf(NX_JNT_ARRAY), jleaf(NX_JNT_OBJECT)};
    for (int n = 0; n <= 6; ++n) for (int pos : {-1000000, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 100, 2147483647, -2147483647 - 1}) if (begin("positions")) {
        J a; a.type = NX_JNT_ARRAY; for (int i = 0; i < n; ++i) a.kids.push_back(jleaf(NX_JNT_INTEGER, fmt("%d", 10 + i))); NXJSONNode *t = jbuild(a), *x = nx_json_array_get(t, pos, NX_JNT_INTEGER), *y = nullptr; step(2);
        describe([&] { return fmt("position %d of %d", pos, n); });
        bool in = pos >= 0 && pos < n, ok = guarded([&] { y = nx_json_array_fget(t, pos, NX_JNT_INTEGER); });
        if ((x != nullptr) != in || ok != in || (in && (x != y || fmt("%d", 10 + pos) != nx_json_node_text(x)))) fail("position %d of an array of %d: %s", pos, n, x ? nx_json_node_text(x) : "nothing"); nx_json_tree_free(t);
    }
    for (auto &k : kinds) for (int mk : JMASKS) for (int pos = 0; pos < 3; ++pos) if (begin("typed-access")) {
        J a; a.type = NX_JNT_ARRAY; a.kids = {jleaf(NX_JNT_NULL), k}; NXJSONNode *n = jbuild(a);
        J o; o.type = NX_JNT_OBJECT; o.names = {"n", "k"}; o.kids = a.kids; NXJSONNode *ob = jbuild(o);
        int ty = pos == 0 ? NX_JNT_NULL : pos == 1 ? k.type : 0;
        bool want = (ty & mk) != 0;
        bool got = guarded([&] { nx_json_array_fget(n, pos, mk); });
        bool got2 = guarded([&] { nx_json_object_fget(ob, pos == 0 ? "n" : pos == 1 ? "k" : "z", mk); });
        step(2);
        if (got != want || got2 != want) fail("typed access to %s as types %d: array %d object %d, expected %d", jshow(k).c_str(), mk, got, got2, want);
        nx_json_tree_free(n); nx_json_tree_free(ob);
    }
    // elements of typed arrays and members of keypoints must have the right type, at every place
    static const J ek[] = {jleaf(NX_JNT_STRING, "s"), jleaf(NX_JNT_INTEGER, "1"), jleaf(NX_JNT_FPNUMBER, "1.5"), jleaf(NX_JNT_TRUE), jleaf(NX_JNT_FALSE), jleaf(NX_JNT_NULL), jleaf(NX_JNT_ARRAY), jleaf(NX_JNT_OBJECT)};
    for (int fn = 0; fn < 6; ++fn) for (int n = 1; n <= 5; ++n) for (int at = 0; at < n; ++at) for (auto &bad : ek) if (begin("element-types")) {
        describe([&] { return fmt("array reader %d, %s at %d of %d", fn, jshow(bad).c_str(), at, n); });
        int okm = fn == 0 ? NX_JNT_INTEGER : fn < 3 ? NX_JNT_NUMBER : fn < 5 ? NX_JNT_STRING : 0; J good = fn == 0 ? ek[1] : fn < 3 ? ek[2] : ek[0]; J a; a.type = NX_JNT_ARRAY; NXJSONNode *node;
        if (fn == 5) { NXKeypoint k; memset(&k, 0, sizeof k); node = nx_json_node_new_array(); for (int i = 0; i < n; ++i) nx_json_array_add(node, i == at ? jbuild(bad) : nx_json_bundle_keypoint(&k)); } else { for (int i = 0; i < n; ++i) a.kids.push_back(i == at ? bad : good); node = jbuild(a); }
        int k = -1; bool got = guarded([&] { switch (fn) { case 0: nx_free(nx_json_unbundle_int_array(node, &k)); break; case 1: nx_free(nx_json_unbundle_float_array(node, &k)); break; case 2: nx_free(nx_json_unbundle_double_array(node, &k)); break; case 3: { char **o = nx_json_unbundle_string_array(node, &k); for (int i = 0; i < k; ++i) nx_free(o[i]); nx_free(o); break; } case 4: nx_string_array_free(nx_json_unbundle_as_string_array(node)); break; default: nx_free(nx_json_unbundle_keypoint_array(node, &k)); } });
        bool want = (bad.type & okm) != 0; step(); if (got != want) fail("array reader %d with %s at %d of %d is %s", fn, jshow(bad).c_str(), at, n, got ? "accepted" : "refused"); state(mix(fn * 100 + n * 10 + at, bad.type)); nx_json_tree_free(node); }
    static const char *KM[] = {"x", "y", "xs", "ys", "level", "scale", "sigma", "score", "ori", "id"};
    for (int mbr = 0; mbr < 10; ++mbr) for (int b = 0; b < 9; ++b) if (begin("keypoint-members")) { // b == 8: missing
        describe([&] { return fmt("keypoint member %s as %s", KM[mbr], b == 8 ? "missing" : jshow(ek[b]).c_str()); });
        J o; o.type = NX_JNT_OBJECT; bool in = false; for (int i = 0; i < 10; ++i) { in = i < 2 || i == 4 || i == 9; if (i == mbr) { if (b == 8) continue; o.names.push_back(KM[i]); o.kids.push_back(ek[b]); } else { o.names.push_back(KM[i]); o.kids.push_back(in ? jleaf(NX_JNT_INTEGER, "3") : jleaf(NX_JNT_FPNUMBER, "2.5")); } }
        in = mbr < 2 || mbr == 4 || mbr == 9; NXJSONNode *n = jbuild(o); bool got = guarded([&] { (void)nx_json_unbundle_keypoint(n); }), want = b == (in ? 1 : 2); if (b == 1 && !in) want = got; // an integer in place of a real
        step(); if (got != want) fail("keypoint with member %s %s is %s", KM[mbr], b == 8 ? "missing" : jshow(ek[b]).c_str(), got ? "accepted" : "refused"); nx_json_tree_free(n); state(mix(mbr, b)); }
    // every kind of entry on every stream: it appears there and nowhere else
    for (int id = 0; id < NX_JLOG_N_STREAMS; ++id) for (int op = 0; op < 13; ++op) for (int cl = 0; cl < 3; ++cl) if (begin("log-kinds")) {
        describe([&] { return fmt("log entry of kind %d on stream %d, cleared %d", op, id, cl); });
        size_t h0 = heap();
        {
            J e; int ia[3] = {1, -2, 2147483647}; float fa[2] = {.5f, -3.25f}; double da[3] = {1e100, -.125, 0}; char *sa[2] = {(char *)"u", (char *)"v\"\n"}; auto I = [](int v) { return jleaf(NX_JNT_INTEGER, fmt("%d", v)); }; auto F = [](double v) { return jleaf(NX_JNT_FPNUMBER, fmt("%e", v)); }; auto Sj = [](const char *v) { return jleaf(NX_JNT_STRING, v); }; auto A = [](std::vector<J> k) { J a; a.type = NX_JNT_ARRAY; a.kids = k; return a; };
            for (int i = 0; i < NX_JLOG_N_STREAMS; ++i) NX_JLOG_I(i, "n", i);
            switch (op) {
            case 0: NX_JLOG_I(id, "k", -7); e = I(-7); break; case 1: NX_JLOG_F(id, "k", .5f); e = F(.5); break; case 2: NX_JLOG_D(id, "k", 1e-200); e = F(1e-200); break; case 3: NX_JLOG_S(id, "k", "text"); e = Sj("text"); break;
            case 4: NX_JLOG_IA(id, "k", 3, ia); e = A({I(1), I(-2), I(2147483647)}); break; case 5: NX_JLOG_FA(id, "k", 2, fa); e = A({F(.5), F(-3.25)}); break; case 6: NX_JLOG_DA(id, "k", 3, da); e = A({F(1e100), F(-.125), F(0)}); break; case 7: NX_JLOG_SA(id, "k", 2, sa); e = A({Sj("u"), Sj("v\"\n")}); break;
            case 8: for (int i = 0; i < 3; ++i) NX_JLOG_ADDI(id, "k", i) e = A({I(0), I(1), I(2)}); break; case 9: for (int i = 0; i < 2; ++i) NX_JLOG_ADDF(id, "k", i + .5f) e = A({F(.5), F(1.5)}); break; case 10: for (int i = 0; i < 2; ++i) NX_JLOG_ADDD(id, "k", i - .5) e = A({F(-.5), F(.5)}); break; case 11: for (int i = 0; i < 2; ++i) NX_JLOG_ADDS(id, "k", sa[i]) e = A({Sj("u"), Sj("v\"\n")}); break; default: { NX_JLOG(id, "k", nx_json_node_new_null()); e = jleaf(NX_JNT_NULL); } }
            if (cl == 1) NX_JLOG_CLEAR((id + 1) % NX_JLOG_N_STREAMS); if (cl == 2) { NX_JLOG_CLEAR(id); }
            S_ path = tmpfile("log.json"); NX_JLOG_XWRITE(id, path.c_str()); S_ w = read_file(path), pr = jprint(nx_json_log_get_stream(id), 1); char *b = nullptr; size_t bn = 0; FILE *ms = open_memstream(&b, &bn); NX_JLOG_FPRINT(id, ms); fclose(ms); if (w != pr || pr != S_(b, bn)) fail("log %d written as %s, printed as %s", id, esc(w).c_str(), esc(pr).c_str()); free(b);
            for (int i = 0; i < NX_JLOG_N_STREAMS; ++i) { J m; m.type = NX_JNT_OBJECT; if (!(cl == 1 && i == (id + 1) % NX_JLOG_N_STREAMS) && !(cl == 2 && i == id)) { m.names.push_back("n"); m.kids.push_back(I(i)); if (i == id) { m.names.push_back("k"); m.kids.push_back(e); } } S_ d = jdiff(m, nx_json_log_get_stream(i), false); step(); if (!d.empty()) fail("entry of kind %d on stream %d: stream %d: %s", op, id, i, d.c_str()); state(mix(jhash(m), i)); }
            nx_json_log_free();
        }
        if (heap() != h0) fail("log leaks"); }
    for (int n : {100, 255, 256, 257, 1000, 1023, 1024, 1025, 3000}) for (int kind = 0; kind < 3; ++kind) if (begin("long-logs")) {
        describe([&] { return fmt("%d entries of kind %d", n, kind); }); J m; m.type = NX_JNT_OBJECT; J arr; arr.type = NX_JNT_ARRAY;
        for (int i = 0; i < n; ++i) { S_ key = fmt("key%d", i); if (kind == 0) { NX_JLOG_I(3, key.c_str(), i); m.names.push_back(key); m.kids.push_back(jleaf(NX_JNT_INTEGER, fmt("%d", i))); } else if (kind == 1) { NX_JLOG_ADDI(3, "list", i * 3) arr.kids.push_back(jleaf(NX_JNT_INTEGER, fmt("%d", i * 3))); } else { S_ t(i % 700, 'a' + i % 26); NX_JLOG_S(3, "same", t.c_str()); m.names.push_back("same"); m.kids.push_back(jleaf(NX_JNT_STRING, t)); } }
        if (kind == 1) { m.names.push_back("list"); m.kids.push_back(arr); } S_ d = jdiff(m, nx_json_log_get_stream(3), false); step(n); if (!d.empty()) fail("log of %d: %s", n, d.c_str()); S_ p2 = jprint(nx_json_log_get_stream(3), 1); J r; if (JReader(p2).doc(r) != 1 || !jeq(r, m)) fail("log of %d entries is printed differently", n); nx_json_log_free(); state(mix(n, kind)); }
    // JSON log: all operation sequences on three streams
    const int NO = 9; int D = pick(5, 6); uint64_t tot = 1; for (int i = 0; i < D; ++i) tot *= NO;
    static const int ID[3] = {0, 7, NX_JLOG_N_STREAMS - 1};
    for (uint64_t k = 0; k < tot; ++k) if (begin("log-sequences")) {
        describe([&] { return fmt("log operations #%llu (base 9, least significant first)", (unsigned long long)k); });
        J m[3]; for (auto &x : m) x.type = NX_JNT_OBJECT;
        uint64_t v = k;
        auto add = [](J &o, const char *key, const J &val) { o.names.push_back(key); o.kids.push_back(val); };
        auto addarr = [&](J &o, const char *key, const J &val) {
            for (size_t i = 0; i < o.names.size(); ++i) if (o.names[i] == key) {
                if (o.kids[i].type == NX_JNT_ARRAY) { o.kids[i].kids.push_back(val); return; }
                break; }
            J a; a.type = NX_JNT_ARRAY; a.kids.push_back(val); add(o, key, a); };
        bool skip = false;
        for (int i = 0; i < D && !skip; ++i) {
            int op = v % NO; v /= NO;
            switch (op) {
            case 0: NX_JLOG_I(ID[0], "a", i); add(m[0], "a", jleaf(NX_JNT_INTEGER, fmt("%d", i))); break;
            case 1: NX_JLOG_S(ID[1], "a", "t\"x"); add(m[1], "a", jleaf(NX_JNT_STRING, "t\"x")); break;
            case 2: { NX_JLOG_ADDI(ID[0], "b", i); addarr(m[0], "b", jleaf(NX_JNT_INTEGER, fmt("%d", i))); break; }
            case 3: { NX_JLOG_ADDS(ID[2], "b", "q"); addarr(m[2], "b", jleaf(NX_JNT_STRING, "q")); break; }
            case 4: NX_JLOG_CLEAR(ID[0]); m[0] = J(); m[0].type = NX_JNT_OBJECT; break;
            case 5: NX_JLOG_CLEAR_ALL(); for (auto &x : m) { x = J(); x.type = NX_JNT_OBJECT; } break;
            case 6: { int ar[2] = {i, -i}; NX_JLOG_IA(ID[2], "c", 2, ar); J a; a.type = NX_JNT_ARRAY; a.kids = {jleaf(NX_JNT_INTEGER, fmt("%d", i)), jleaf(NX_JNT_INTEGER, fmt("%d", -i))}; add(m[2], "c", a); break; }
            case 7: NX_JLOG_CLEAR(ID[2]); m[2] = J(); m[2].type = NX_JNT_OBJECT; break;
            case 8: { bool bad = guarded([&] { nx_json_log_get_stream(NX_JLOG_N_STREAMS); }) || guarded([&] { nx_json_log_get_stream(-1); }) || guarded([&] { nx_json_log_clear_stream(-1); }) || guarded([&] { nx_json_log_clear_stream(NX_JLOG_N_STREAMS); });
                      if (bad) fail("a log stream outside of the valid range is not refused"); break; }
            }
            step();
            for (int s = 0; s < 3; ++s) {
                std::string d = jdiff(m[s], nx_json_log_get_stream(ID[s]), false);
                if (!d.empty()) { fail("after operation %d (%d), stream %d: %s", i, op, ID[s], d.c_str()); skip = true; break; }
                std::string p = jprint(nx_json_log_get_stream(ID[s]), 1); J r;
                if (JReader(p).doc(r) != 1 || !jeq(r, m[s])) { fail("stream %d printed as %s, expected %s", ID[s], esc(p).c_str(), jshow(m[s]).c_str()); skip = true; break; }
                state(jhash(m[s]));
            }
        }
        nx_json_log_free();
    }
}

// ------------------------------------------------------------------ P06
struct LM { std::string t; int pos = -1, c = 0, line = 1, col = 0;
    void consume() { if (c == EOF) return; ++pos; c = pos < (int)t.size() ? (unsigned char)t[pos] : EOF;
        if (c == '\n') { ++line; col = 0; } else if (c == '\r') col = 0; else if (c == '\t') col += 8; else ++col; } };
static void p06() {
    auto cmp = [](LM &m, NXLexer *l, const char *w, const std::string &t) {
        step();
        if (nx_lexer_position(l) != m.pos || nx_lexer_current_char(l) != m.c || nx_lexer_line_no(l) != m.line || (m.c != EOF && nx_lexer_column_no(l) != m.col))
            fail("text '%s' after %s: position %d char %d line %d column %d, expected %d %d %d %d", esc(t).c_str(), w, nx_lexer_position(l), nx_lexer_current_char(l), nx_lexer_line_no(l), nx_lexer_column_no(l), m.pos, m.c, m.line, m.col);
        state(mix(mix(m.pos, m.c), mix(m.line, m.col)));
    };
    auto texts = [&](const std::string &A, int L, const std::function<void(const std::string &)> &f, const char *g) {
        for (int len = 0; len <= L; ++len) { uint64_t n = 1; for (int i = 0; i < len; ++i) n *= A.size();
            for (uint64_t k = 0; k < n; ++k) if (begin(g)) { std::string t; uint64_t v = k; for (int i = 0; i < len; ++i) { t += A[v % A.size()]; v /= A.size(); } f(t); } } };
    auto mk = [](const std::string &t) { char *b = (char *)malloc(t.size() + 1); memcpy(b, t.c_str(), t.size() + 1); return b; };
    texts("ab\n\t\r\xff", pick(6, 8), [&](const std::string &t) {
        describe([&] { return "positions in " + esc(t); });
        char *b = mk(t); NXLexer *l = nx_lexer_new(b); LM m; m.t = t; m.consume(); cmp(m, l, "start", t);
        for (size_t i = 0; i < t.size() + 2; ++i) { int c = nx_lexer_consume(l); m.consume(); if (c != m.c) fail("consume returned %d, expected %d", c, m.c); cmp(m, l, "consume", t); } { int col = nx_lexer_column_no(l); nx_lexer_consume(l); if (nx_lexer_column_no(l) != col) fail("the column moves at the end of '%s'", esc(t).c_str()); }
        nx_lexer_free(l); free(b); }, "positions");
    static const char *PAT[] = {"", "a", "b", "ab", "aa", "aba", "a\n", "\nb", "abab", "\xff", "bb\n"};
    texts("ab\n\xff", pick(6, 7), [&](const std::string &t) {
        describe([&] { return "matching in " + esc(t); });
        char *b = mk(t);
        for (const char *p : PAT) for (size_t off = 0; off <= t.size(); ++off) {
            NXLexer *l = nx_lexer_new(b); LM m; m.t = t; m.consume();
            for (size_t i = 0; i < off; ++i) { nx_lexer_consume(l); m.consume(); }
            bool want = t.compare(off, strlen(p), p) == 0;
            bool got = nx_lexer_match(l, p);
            if (got != want) fail("matching '%s' at %d of '%s' gives %d", esc(p).c_str(), (int)off, esc(t).c_str(), got);
            if (want) for (size_t i = 0; i < strlen(p); ++i) m.consume();
            cmp(m, l, want ? "match" : "failed match", t);
            nx_lexer_free(l);
        }
        free(b); }, "matching");
    auto number = [&](const std::string &t) {
        if (t.empty() || !(t[0] == '-' || isdigit(t[0]))) return;
        describe([&] { return "number in " + esc(t); });
        // reference: longest prefix machine
        size_t p = 0; bool bad = false, fp = false; auto dig = [&] { return p < t.size() && isdigit((unsigned char)t[p]); };
        if (t[p] == '-') ++p;
        if (!dig()) bad = true; else { size_t b = p; while (dig()) ++p; if (t[b] == '0' && p - b > 1) bad = true; }
        if (!bad && p < t.size() && t[p] == '.') { fp = true; ++p; if (!dig()) bad = true; while (dig()) ++p; }
        if (!bad && p < t.size() && (t[p] == 'e' || t[p] == 'E')) { fp = true; ++p; if (p < t.size() && (t[p] == '+' || t[p] == '-')) ++p; if (!dig()) bad = true; while (dig()) ++p; }
        char *b = mk(t); NXLexer *l = nx_lexer_new(b); int len = -1; NXLexerNumberType ty = NX_LNT_INTEGER; const char *r = nullptr;
        bool ok = guarded([&] { r = nx_lexer_NUMBER(l, &len, &ty); });
        step();
        if (ok == bad) fail("number '%s' %s", t.c_str(), ok ? "accepted" : "rejected");
        else if (ok && (r != b || len != (int)p || (ty == NX_LNT_FLOATING_POINT) != fp || nx_lexer_position(l) != (int)p)) fail("number in '%s': length %d type %d position %d, expected length %d real %d", t.c_str(), len, ty, nx_lexer_position(l), (int)p, fp);
        state(mix(p, bad * 2 + fp)); nx_lexer_free(l); free(b); };
    texts("01-+.eE", pick(6, 7), number, "numbers");
    number_shapes([&](const std::string &t) { if (begin("number-shapes")) for (const char *e : {"", "x", ",", "-", ".", "e", "E", "0"}) number(t + e); });
    texts("a\"\\n\n\xff" "x", pick(6, 7), [&](const std::string &s) {
        std::string t = "\"" + s;
        describe([&] { return "quoted string in " + esc(t); });
        size_t p = 1; bool ok2 = false, bad = false;
        while (p < t.size()) { if (t[p] == '"') { ok2 = true; break; } if (t[p] == '\\') { ++p; if (p >= t.size() || !strchr("\"\\/bfnrt", t[p])) { bad = true; break; } } ++p; }
        bool want = ok2 && !bad;
        char *b = mk(t); NXLexer *l = nx_lexer_new(b); int len = -1; const char *r = nullptr;
        bool ok = guarded([&] { r = nx_lexer_QUOTED_STRING(l, &len); });
        step();
        if (ok != want) fail("quoted string '%s' %s", esc(t).c_str(), ok ? "accepted" : "rejected");
        else if (ok && (r != b + 1 || len != (int)p - 1 || nx_lexer_position(l) != (int)p + 1)) fail("quoted string in '%s': length %d, expected %d", esc(t).c_str(), len, (int)p - 1);
        state(mix(p, want)); nx_lexer_free(l); free(b); }, "quoted-strings");
    auto SZ = [](int upto) { std::vector<int> r; for (int b = 32; b / 2 <= upto; b *= 2) for (int d : {-1, 0, 1, b / 4 + 3}) if (b + d <= upto) r.push_back(b + d); return r; };
    for (int n : SZ(pick(5000, 70000))) for (int k = 0; k < 8; ++k) if (begin("long-tokens")) { // after a long prefix, a long token, then more
        describe([&] { return fmt("token of %d, kind %d", n, k); });
        S_ pre; for (int i = 0; i < n; ++i) pre += i % 50 == 49 ? '\n' : i % 31 == 7 ? '\t' : 'p'; S_ tok, D1(n, '1'); for (int i = 0; i < n; ++i) D1[i] = '1' + i % 9;
        if (k == 0) tok = D1; else if (k == 1) tok = "-0." + D1; else if (k == 2) tok = D1 + "." + D1 + "e-" + D1; else if (k == 3) tok = "0E+" + D1; else if (k == 4) tok = "\"" + S_(n, 'q') + "\""; else if (k == 5) { tok = "\""; for (int i = 0; i < n; ++i) tok += "\\\""; tok += "\""; } else if (k == 6) { tok = "\"" + S_(n - 1, 'z') + "\\\\\""; } else tok = S_(n, 'm') + "\n";
        S_ t = pre + tok + (k == 7 ? "z" : "\"7"); char *b = mk(t); NXLexer *l = nx_lexer_new(b); LM m; m.t = t; m.consume(); for (int i = 0; i < n; ++i) { nx_lexer_consume(l); m.consume(); } cmp(m, l, "prefix", "long text");
        int len = -1; NXLexerNumberType ty = NX_LNT_INTEGER; const char *r = nullptr; bool ok = true; int off = k < 4 ? 0 : 1, want = tok.size() - 2 * off;
        if (k < 4) { ok = guarded([&] { r = nx_lexer_NUMBER(l, &len, &ty); }); if (ok && (ty == NX_LNT_FLOATING_POINT) != (k > 0)) fail("type of a number of %d", n); } else if (k < 7) ok = guarded([&] { r = nx_lexer_QUOTED_STRING(l, &len); }); else { S_ wrong = tok; wrong[n / 2] = '?'; if (nx_lexer_match(l, wrong.c_str())) fail("a different text of %d matches", n); cmp(m, l, "failed match", "long text"); ok = nx_lexer_match(l, tok.c_str()); }
        if (!ok) fail("token of %d, kind %d refused", n, k); else { if (k < 7 && (r != b + n + off || len != want)) fail("token of %d, kind %d: length %d, expected %d", n, k, len, want); for (size_t i = 0; i < tok.size(); ++i) m.consume(); cmp(m, l, "token", "long text"); }
        nx_lexer_free(l); free(b); state(mix(n, k)); }
    for (int n : SZ(pick(3000, 30000))) for (int k = 0; k < 3; ++k) if (begin("long-texts")) { S_ t; for (int i = 0; i < n; ++i) t += k == 0 ? '\n' : k == 1 ? (i % 200 == 199 ? '\n' : 'c') : "ab\t\r\n\xff"[i * 7 % 6]; char *b = mk(t); NXLexer *l = nx_lexer_new(b); LM m; m.t = t; m.consume(); for (int i = 0; i < n + 1; ++i) { int c = nx_lexer_consume(l); m.consume(); if (c != m.c) { fail("consume returns %d, expected %d at %d", c, m.c, i); break; } cmp(m, l, "consume", "long text"); } nx_lexer_free(l); free(b); }
    // the token streams of JSON and CSV texts
    static const char *JN[] = {"INVALID", "EOF", "[", "]", "{", "}", ",", ":", "true", "false", "null", "INTEGER", "FPNUM", "STRING"}, *CN[] = {"INVALID", "EOF", "EOR", ",", "FIELD", "QFIELD"};
    struct T { int type; S_ text; };
    auto jref = [](const S_ &t, std::vector<T> &o) -> int { JReader r(t); // 1 all tokens, 0 fatal at the end of o, -1 not specified
        for (;;) { r.ws(); int c = r.c(); if (c < 0) { o.push_back({NX_JTT_EOF, ""}); return 1; }
            const char *P = "[]{},:", *q = strchr(P, c); if (q) { ++r.p; o.push_back({NX_JTT_LSBRAC + (int)(q - P), ""}); continue; }
            J j; j.type = 0; if (!r.value(j)) return r.unspec ? -1 : 0;
            int ty = j.type == NX_JNT_STRING ? NX_JTT_STRING : j.type == NX_JNT_INTEGER ? NX_JTT_INTEGER : j.type == NX_JNT_FPNUMBER ? NX_JTT_FPNUM : j.type == NX_JNT_TRUE ? NX_JTT_TRUE : j.type == NX_JNT_FALSE ? NX_JTT_FALSE : NX_JTT_NULL;
            o.push_back({ty, ty >= NX_JTT_INTEGER ? j.text : S_()}); } };
    auto cref = [](const S_ &t, std::vector<T> &o) -> int { size_t p = 0;
        for (;;) { if (p >= t.size()) { o.push_back({NX_CTT_EOF, ""}); return 1; }
            char c = t[p]; S_ x;
            if (c == ',') { ++p; o.push_back({NX_CTT_COMMA, ""}); } else if (c == '\n') { ++p; o.push_back({NX_CTT_EOR, ""}); }
            else if (c == '"') { ++p; for (;;) { if (p >= t.size()) return 0; if (t[p] != '"') { x += t[p++]; continue; } if (p + 1 < t.size() && t[p + 1] == '"') { x += '"'; p += 2; continue; } ++p; break; } o.push_back({NX_CTT_QUOTED_FIELD, x}); }
            else { while (p < t.size() && t[p] != ',' && t[p] != '\n') { if (t[p] == '"') return 0; x += t[p++]; } o.push_back({NX_CTT_FIELD, x}); } } };
    auto tokens = [&](const S_ &t, bool json) {
        std::vector<T> w; int k = json ? jref(t, w) : cref(t, w); if (k < 0) return;
        describe([&] { return S_(json ? "JSON" : "CSV") + " tokens of " + esc(t.substr(0, 60)); });
        size_t h0 = heap(); char *b = mk(t); NXJSONLexer *jl = json ? nx_json_lexer_new(b) : nullptr; NXCSVLexer *cl = json ? nullptr : nx_csv_lexer_new(b);
        NXJSONToken jt; NXCSVToken ct; jt.type = NX_JTT_INVALID; ct.type = NX_CTT_INVALID; jt.text = ct.text = nullptr;
        auto next = [&] { return guarded([&] { if (json) nx_json_lexer_next_token(jl, &jt); else nx_csv_lexer_next_token(cl, &ct); }); };
        bool fatal = false;
        for (size_t i = 0; i <= w.size(); ++i) {
            if (i == w.size() && k == 0) { if (next()) fail("'%s': token %zu is accepted", esc(t).c_str(), i); fatal = true; break; }
            const T &x = w[i == w.size() ? i - 1 : i]; step();   // the end is reported again and again
            if (!next()) { fail("'%s': token %zu is refused", esc(t).c_str(), i); fatal = true; break; }
            int ty = json ? (int)jt.type : (int)ct.type; const char *tx = json ? jt.text : ct.text; bool txt = json ? x.type >= NX_JTT_INTEGER : x.type >= NX_CTT_FIELD;
            if (ty != x.type || (txt ? !tx || x.text != tx : tx != nullptr)) { fail("'%s': token %zu is of type %d '%s', expected type %d '%s'", esc(t).c_str(), i, ty, tx ? esc(tx).c_str() : "-", x.type, esc(x.text).c_str()); break; }
            const char *nm = json ? JN[1 + ty] : CN[1 + ty]; char *s = json ? nx_json_token_to_string(&jt) : nx_csv_token_to_string(&ct);
            if (strcmp(nm, json ? nx_json_token_name(&jt) : nx_csv_token_name(&ct)) || strcmp(nm, json ? nx_json_token_type_name(jt.type) : nx_csv_token_type_name(ct.type)) || (txt ? "<" + S_(nm) + ":'" + x.text + "'>" : "<" + S_(nm) + ">") != s) fail("'%s': token %zu is shown as %s", esc(t).c_str(), i, esc(s).c_str());
            nx_free(s);
        }
        if (json) { nx_json_token_free_data(&jt); nx_json_lexer_free(jl); if (jt.text) fail("token data is kept"); } else { nx_csv_token_free_data(&ct); nx_csv_lexer_free(cl); if (ct.text) fail("token data is kept"); }
        free(b); state(mix(w.size(), mix(k, w.empty() ? 0 : hash(w.back().text))));
        if (!fatal && heap() != h0) fail("'%s': reading tokens leaks %ld bytes", esc(t).c_str(), (long)(heap() - h0));
    };
    texts(S_("[]{},: \n\"t1-.e\\n"), pick(4, 5), [&](const S_ &t) { tokens(t, true); }, "json-tokens");
    texts(S_("a,\n\"\r \xff"), pick(6, 7), [&](const S_ &t) { tokens(t, false); }, "csv-tokens");
    for (int c = 1; c < 256; ++c) for (int k = 0; k < 12; ++k) if (begin("byte-tokens")) { S_ x(1, (char)c); // every byte in every place
        switch (k) { case 0: tokens(x, true); break; case 1: tokens("[" + x + "1", true); break; case 2: tokens("true" + x, true); break; case 3: tokens("\"a" + x + "b\"]", true); break; case 4: tokens("12" + x + "]", true); break; case 5: tokens("\"\\" + x + "\"", true); break; case 6: tokens(x, false); break; case 7: tokens("a" + x + "b", false); break; case 8: tokens("\"a" + x + "b\"", false); break; case 9: tokens("a," + x + ",\n", false); break; case 10: tokens("\"q\"" + x + ",", false); break; default: tokens("\n" + x + "\n", false); } }
    static const char *JW[] = {"true", "false", "null", "tru", "-12", "0.5e3", "\"a\\tb\"", "\"\"", "[", ":", ",", " ", "x"};
    for (int k = 0; k < 13 * 13 * 13 * 13; ++k) if (begin("json-words")) { S_ t; for (int v = k, i = 0; i < 4; ++i, v /= 13) t += JW[v % 13]; tokens(t, true); }
    for (int n : SZ(pick(5000, 70000))) for (int k = 0; k < 8; ++k) if (begin("large-token-streams")) {
        S_ t; if (k == 0) t = "\"" + S_(n, 'q') + "\"7"; else if (k == 1) for (int i = 0; i < n; ++i) t += "[\"a\",-1.5]"[i % 10]; else if (k == 2) { t = "1"; for (int i = 0; i < n; ++i) t += '0' + i % 10; t += "]"; } else if (k == 3) t = S_(n, ' ') + "true" + S_(n, '\n') + "x";
        else if (k == 4) t = "\"" + S_(2 * n, '"') + "\",b"; else if (k == 5) t = S_(n, 'f') + ",\n" + S_(n, ' ') + "\n"; else if (k == 6) for (int i = 0; i < n; ++i) t += "ab,\n\"x\",,"[i % 9]; else t = "\"" + S_(n, 'u');
        tokens(t, k < 4); }
}
void mc_run() { if (!strcmp(PROP, "P04")) p04(); else if (!strcmp(PROP, "P05")) p05(); else p06(); }
