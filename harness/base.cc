// P09 string encodings, P10 string arrays, P11 memory blocks and vectors, P12 SHA-256,
// P13 bit operations and descriptor search, P31 line and directory reading.
#include "mc.hh"
#include <algorithm>
#include <cmath>
#include <climits>
#include <cstdarg>
#include <optional>
#include <sys/stat.h>
extern "C" {
#include "virg/nexus/nx_alloc.h"
#include "virg/nexus/nx_string.h"
#include "virg/nexus/nx_string_array.h"
#include "virg/nexus/nx_io.h"
#include "virg/nexus/nx_filesystem.h"
#include "virg/nexus/nx_mem_block.h"
#include "virg/nexus/nx_keypoint_vector.h"
#include "virg/nexus/nx_hash_sha256.h"
#include "virg/nexus/nx_bit_ops.h"
}
#include "virg/nexus/vg_descriptor_map.hpp"
#include "virg/nexus/vg_brief_extractor.hpp"
using namespace mc;
typedef std::string S;

static S word(const S &A, int len, uint64_t k) { S t; for (int i = 0; i < len; ++i) { t += A[k % A.size()]; k /= A.size(); } return t; }
template <class F> static void words(const char *g, const S &A, int L, F f) {
    for (int len = 0; len <= L; ++len) { uint64_t n = 1; for (int i = 0; i < len; ++i) n *= A.size(); for (uint64_t k = 0; k < n; ++k) if (begin(g)) f(word(A, len, k)); }
}
static char *exact(const S &t) { char *b = (char *)malloc(t.size() ? t.size() : 1); memcpy(b, t.data(), t.size()); return b; }
static S cap(const std::function<void(FILE *)> &f) { char *b = nullptr; size_t n = 0; FILE *s = open_memstream(&b, &n); f(s); fclose(s); S r(b, n); free(b); return r; }
static char *ps(const char *f, ...) { va_list a; va_start(a, f); char *r = nx_vfstr(f, a); va_end(a); return r; }

// sizes around the powers of two and between them
static std::vector<int> sizes(int upto) {
    std::vector<int> r;
    for (int b = 64; b / 2 <= upto; b *= 2) for (int d : {-1, 0, 1, b / 4 + 3, b / 2}) if (b + d <= upto) r.push_back(b + d);
    r.push_back(upto); return r;
}
static S bytes(int n, int k, bool nul = false) { S t(n, 0); uint32_t x = 99u + k * 77u; for (int i = 0; i < n; ++i) { x = x * 1664525u + 1013904223u; t[i] = (char)(x >> 24); if (!t[i] && !nul) t[i] = 1; } return t; }

// ------------------------------------------------------------------ P09
static void p09() {
    // escape / unescape
    words("escape", "a\"\\\n\t\b/n", pick(6, 7), [](const S &t) {
        describe([&] { return "escape " + esc(t); });
        S r = cap([&](FILE *f) { if (nx_fputs_readable(t.c_str(), f) != 0) fail("writing '%s' fails", esc(t).c_str()); });
        S q = cap([&](FILE *f) { if (nx_fputs_double_quoted(t.c_str(), f) != 0) fail("writing '%s' fails", esc(t).c_str()); });
        step(4); state(r);
        for (int k = 0; k < 2; ++k) {
            S &w = k ? q : r;
            if (w.size() < 2 || w[0] != '"' || w.back() != '"') { fail("'%s' is written without quotes: %s", esc(t).c_str(), esc(w).c_str()); return; }
            S in = w.substr(1, w.size() - 2);
            if (!k) for (char c : in) if (c == '\n' || c == '\t' || c == '\b') fail("readable form of '%s' contains a control character", esc(t).c_str());
            for (size_t i = 0; i < in.size(); ++i) { // a reader of quoted text finds the end at the closing quote only
                if (!k && in[i] == '\\') { ++i; continue; }
                if (in[i] == '"') { if (k && i + 1 < in.size() && in[i + 1] == '"') ++i; else { fail("unprotected quote in %s", esc(w).c_str()); break; } }
            }
            char *b = exact(in); char *s = nullptr;
            if (!guarded([&] { s = k ? nx_xstr_from_double_quoted(in.size(), b) : nx_xstr_from_readable(in.size(), b); })) fail("own encoding %s is refused", esc(w).c_str());
            else { if (t != s) fail("'%s' encoded as %s decodes to '%s'", esc(t).c_str(), esc(w).c_str(), esc(s).c_str()); nx_free(s); }
            free(b);
        }
    });
    for (int c = 1; c < 256; ++c) for (int d = 1; d < 256; d += pick(7, 1)) if (begin("escape-bytes")) {
        S t; t += (char)c; t += (char)d; t += (char)c;
        S r = cap([&](FILE *f) { nx_fputs_readable(t.c_str(), f); }), q = cap([&](FILE *f) { nx_fputs_double_quoted(t.c_str(), f); });
        char *s = nullptr; step(2);
        if (r.size() < 2 || !guarded([&] { s = nx_xstr_from_readable(r.size() - 2, r.c_str() + 1); }) || t != s) fail("bytes %d %d do not survive escaping", c, d);
        if (s) nx_free(s); s = nullptr;
        if (q.size() < 2 || !guarded([&] { s = nx_xstr_from_double_quoted(q.size() - 2, q.c_str() + 1); }) || t != s) fail("bytes %d %d do not survive quoting", c, d);
        if (s) nx_free(s);
    }
    words("unescape", "a\\n\"/q", pick(7, 8), [](const S &t) {
        describe([&] { return "decode " + esc(t); });
        S e; bool ok = true;
        for (size_t i = 0; i < t.size() && ok; ++i) {
            if (t[i] != '\\') { e += t[i]; continue; }
            if (++i == t.size()) { ok = false; break; }
            const char *p = strchr("n\"/\\", t[i]); if (!p) ok = false; else e += t[i] == 'n' ? '\n' : t[i];
        }
        char *b = exact(t), *s = nullptr; step();
        bool got = guarded([&] { s = nx_xstr_from_readable(t.size(), b); });
        if (got != ok) fail("readable '%s' is %s", esc(t).c_str(), got ? "accepted" : "refused");
        else if (ok && e != s) fail("readable '%s' decodes to '%s', expected '%s'", esc(t).c_str(), esc(s).c_str(), esc(e).c_str());
        if (got) nx_free(s);
        state(ok ? e : S("-"));
        S e2; ok = true;
        for (size_t i = 0; i < t.size() && ok; ++i) { if (t[i] == '"') { if (++i == t.size() || t[i] != '"') { ok = false; break; } } e2 += t[i]; }
        s = nullptr; got = guarded([&] { s = nx_xstr_from_double_quoted(t.size(), b); }); step();
        if (got != ok) fail("double quoted '%s' is %s", esc(t).c_str(), got ? "accepted" : "refused");
        else if (ok && e2 != s) fail("double quoted '%s' decodes to '%s', expected '%s'", esc(t).c_str(), esc(s).c_str(), esc(e2).c_str());
        if (got) nx_free(s);
        free(b);
    });
    if (begin("null")) {
        if (nx_xstr_from_readable(3, nullptr) || nx_xstr_from_double_quoted(3, nullptr)) fail("decoding nothing gives something");
        if (cap([&](FILE *f) { nx_fputs_readable(nullptr, f); }) != "null") fail("missing string is not written as null");
        char *d = nx_strdup("x"); nx_strredup(&d, nullptr); if (d) fail("null replaces"); nx_strredup(&d, "abc"); if (!d || S("abc") != d) fail("redup from null"); nx_strredup(&d, d + 1); if (S("bc") != d) fail("string replaced by a part of itself: %s", d); nx_free(d);
        step(5);
    }
    // formatted strings of every length
    for (int n = 0; n <= pick(700, 5000); ++n) if (begin("format")) {
        S t(n, 'x'); for (int i = 0; i < n; ++i) t[i] = "abcdefghijk"[i % 11];
        char *s = nx_fstr("%s", t.c_str()); if (t != s) fail("formatted string of %d", n); nx_free(s);
        s = nx_fstr("%d|%s|%.3f|%s", n, t.c_str(), n * .5, t.c_str()); S e = fmt("%d|", n) + t + fmt("|%.3f|", n * .5) + t; if (e != s) fail("formatted text of length %d: got length %d", (int)e.size(), (int)strlen(s)); nx_free(s);
        s = ps("%s%c%s", t.c_str(), '-', t.c_str()); if (t + "-" + t != s) fail("formatted argument list of %d", n); nx_free(s);
        s = nx_strdup(t.c_str()); if (t != s) fail("copy of %d", n);
        nx_strredup(&s, (t + "y").c_str()); if (t + "y" != s) fail("replacement of %d", n); nx_free(s);
        step(5);
    }
    // length prefixed strings
    for (int n = 0; n <= pick(60, 300); ++n) if (begin("string-io")) {
        describe([&] { return fmt("string of %d written and read", n); });
        S t(n, 0); for (int i = 0; i < n; ++i) t[i] = (char)(1 + (i * 37 + n) % 255);
        S u = "second";
        S d = cap([&](FILE *f) { if (nx_strwrite(t.c_str(), f) || nx_strwrite(u.c_str(), f)) fail("write fails"); });
        for (size_t cut = 0; cut <= d.size(); ++cut) {
            FILE *f = fmemopen((void *)d.data(), cut ? cut : 1, "r"); setvbuf(f, nullptr, _IONBF, 0); if (!cut) fgetc(f);
            size_t h0 = heap();
            char *s = nx_strread0(f), *s2 = s ? nx_strread0(f) : nullptr; step();
            size_t first = sizeof(size_t) + n;
            if ((s != nullptr) != (cut >= first) || (s2 != nullptr) != (cut == d.size())) fail("reading a string of %d from %d of %d bytes: %d %d", n, (int)cut, (int)d.size(), !!s, !!s2);
            if (s && t != s) fail("string of %d changed", n); if (s2 && u != s2) fail("string after %d changed", n);
            nx_free(s); nx_free(s2);
            if (heap() != h0) fail("reading from %d bytes leaks", (int)cut);
            rewind(f); if (!cut) fgetc(f);
            for (size_t pre : {(size_t)0, (size_t)1, (size_t)n, (size_t)n + 1, (size_t)n + 9}) { // into a given buffer
                rewind(f); if (!cut) fgetc(f);
                char *b = pre ? (char *)nx_xmalloc(pre) : nullptr;
                int r = nx_strread(&b, pre, f); step();
                if ((r == 0) != (cut >= first)) fail("reading into a buffer of %d", (int)pre); else if (!r && t != b) fail("string read into a buffer of %d changed", (int)pre);
                nx_free(b);
            }
            fclose(f);
        }
        state(mix(n, 7));
    }
    // gathering from several sources: every split, every chunking
    int NS = 3, T = pick(5, 6);
    for (int a = 0; a <= T; ++a) for (int b = 0; b <= T; ++b) for (int c = 0; c <= T; ++c) for (int ns = 1; ns <= NS; ++ns) {
        if ((ns < 3 && c) || (ns < 2 && b)) continue;
        int tot = a + b + c;
        for (int ch = 0; ch < 4 * 64; ++ch) if (begin("gather")) {
            describe([&] { return fmt("gather from %d sources of %d,%d,%d bytes in chunks #%d", ns, a, b, c, ch); });
            int len[3] = {a, b, c}; std::vector<char *> src(3); S all; std::vector<size_t> l(ns); const void *sp[3];
            for (int i = 0, v = 1; i < 3; ++i) { S x; for (int j = 0; j < len[i]; ++j) x += (char)v++; src[i] = exact(x); all += x; }
            std::vector<const void *> spv; for (int i = 0; i < ns; ++i) { l[i] = len[i]; spv.push_back(src[i]); } (void)sp;
            int so = 0; size_t off = 0; S got; int v = ch; bool stop = false;
            for (int k = 0; k < 4 && !stop; ++k, v /= 4) {
                int n = k == 3 ? tot + 2 : (int[]){0, 1, 3, 4}[v % 4] + (ch >= 64 ? (ch / 64) : 0);
                std::vector<char> dst(n + 1, 0x55); char *d = exact(S(n, 0));
                size_t r = nx_memncpy_multi(d, ns, spv.data(), l.data(), n, &so, &off); step();
                size_t want = std::min<size_t>(n, all.size() - got.size());
                if (r != want) { fail("gathering %d bytes after %d of %d gives %d", n, (int)got.size(), (int)all.size(), (int)r); stop = true; }
                else got.append(d, r);
                free(d);
            }
            if (!stop && got != all) fail("gathered bytes differ");
            state(mix(mix(a, b), mix(c, ns)));
            for (auto p : src) free(p);
        }
    }
    // long strings: every encoding, the special characters at every kind of place
    for (int n : sizes(pick(9000, 140000))) for (int k = 0; k < 6; ++k) if (begin("long")) {
        describe([&] { return fmt("string of %d, pattern %d", n, k); });
        S t; for (int i = 0; i < n; ++i) t += k == 0 ? 'a' : k == 1 ? '"' : k == 2 ? '\\' : k == 3 ? "ab\n\"c\\"[i % 6] : k == 4 ? (i >= n - 2 ? '\n' : 'b') : (i + 1) % 64 ? 'c' : '"'; if (k == 5) t = bytes(n, n);
        size_t h0 = heap();
        {
            S r = cap([&](FILE *f) { if (nx_fputs_readable(t.c_str(), f)) fail("writing %d fails", n); }), q = cap([&](FILE *f) { if (nx_fputs_double_quoted(t.c_str(), f)) fail("writing %d fails", n); }); S er = "\"", eq = "\"";
            if (k < 5) { for (char c : t) { if (c == '"' || c == '\\') er += '\\'; if (c == '\n') er += "\\n"; else er += c; if (c == '"') eq += c; eq += c; } er += '"'; eq += '"'; if (r != er) fail("escaped form of a string of %d differs", n); if (q != eq) fail("quoted form of a string of %d differs", n); }
            char *b = exact(r.substr(1, r.size() - 2)), *s = nullptr; if (!guarded([&] { s = nx_xstr_from_readable(r.size() - 2, b); }) || t != s) fail("string of %d, pattern %d does not survive escaping", n, k); nx_free(s); free(b); s = nullptr;
            b = exact(q.substr(1, q.size() - 2)); if (!guarded([&] { s = nx_xstr_from_double_quoted(q.size() - 2, b); }) || t != s) fail("string of %d, pattern %d does not survive quoting", n, k); nx_free(s); free(b); s = nullptr;
            char *c = nx_strdup(t.c_str()); if (t != c) fail("copy of %d", n); nx_strredup(&c, t.c_str() + n / 2); if (t.substr(n / 2) != c) fail("replacement by %d", n - n / 2); nx_strredup(&c, t.c_str()); if (t != c) fail("replacement by %d", n); nx_free(c);
            c = nx_fstr("%s", t.c_str()); if (t != c) fail("formatted string of %d", n); nx_free(c); c = ps("<%s|%s>", t.c_str(), t.c_str()); if ("<" + t + "|" + t + ">" != c) fail("formatted argument list of %d", n); nx_free(c);
            S d = cap([&](FILE *f) { if (nx_strwrite(t.c_str(), f) || nx_strwrite("next", f)) fail("write fails"); });
            for (size_t cut : {d.size(), d.size() - 12, d.size() - 13, d.size() - 1, (size_t)8 + n / 2, (size_t)8, (size_t)7}) for (size_t pre : {(size_t)0, (size_t)1, (size_t)n - 1, (size_t)n, (size_t)n + 1, (size_t)2 * n}) {
                FILE *f = fmemopen((void *)d.data(), cut, "r"); char *x = pre ? (char *)nx_xmalloc(pre) : nullptr; int rc = nx_strread(&x, pre, f); step(); bool e = cut >= 8 + (size_t)n;
                if ((rc == 0) != e) fail("reading %d bytes from %d into a buffer of %d", n, (int)cut, (int)pre); else if (e && t != x) fail("string of %d read into a buffer of %d changed", n, (int)pre); nx_free(x);
                if (!pre) { rewind(f); char *y = nx_strread0(f), *z = y ? nx_strread0(f) : nullptr; if (!!y != e || (y && t != y) || !!z != (cut == d.size()) || (z && S("next") != z)) fail("string of %d read from %d bytes", n, (int)cut); nx_free(y); nx_free(z); }
                fclose(f);
            }
            step(12); state(mix(n, k));
        }
        if (heap() != h0) fail("strings of %d leak", n);
    }
    for (int n : sizes(pick(3000, 20000))) for (int k = 0; k < 6; ++k) if (begin("gather-large")) {
        describe([&] { return fmt("gather about %d bytes, parts and chunks #%d", n, k); });
        std::vector<size_t> l; if (k < 2) l = {(size_t)n}; else if (k < 4) l = {(size_t)n / 3, 0, (size_t)n, 1}; else for (int i = 0; i < 300; ++i) l.push_back(i % 4 ? i % 9 : n / 10);
        std::vector<const void *> sp; S all; for (size_t i = 0; i < l.size(); ++i) { S x = bytes(l[i], i, true); all += x; sp.push_back(exact(x)); }
        S got; int so = 0; size_t off = 0; size_t ch = k % 2 ? 64 : n / 2 + 1;
        for (;;) { char *d = exact(S(ch, 'z')); size_t r = nx_memncpy_multi(d, l.size(), sp.data(), l.data(), ch, &so, &off); step(); size_t want = std::min(ch, all.size() - got.size()); if (r != want) { fail("gathering %d after %d of %d gives %d", (int)ch, (int)got.size(), (int)all.size(), (int)r); free(d); break; } got.append(d, r); free(d); if (!r) break; }
        if (got != all) fail("gathered bytes differ"); for (auto p : sp) free((void *)p); state(mix(n, k));
    }
    for (int n : sizes(pick(2000, 20000))) if (begin("hash-text-long")) { S t = bytes(n, n, true), e; for (unsigned char c : t) e += fmt("%02x", c); uint8_t *b = (uint8_t *)exact(t); char *s = nx_hash_to_str(n, b); step(); if (e != s) fail("hash text of %d bytes", n); nx_free(s); free(b); state(n); }
    for (int k = 0; k < 4; ++k) for (int pre : {0, 1, 16}) if (begin("impossible-length")) {
        describe([&] { return fmt("stored length SIZE_MAX followed by %d bytes, buffer of %d", k * 5, pre); });
        size_t h0 = heap(); { S d(8, '\xff'); d += S(k * 5, 'x'); FILE *f = fmemopen((void *)d.data(), d.size(), "r"); char *x = pre ? (char *)nx_xmalloc(pre) : nullptr; int rc = nx_strread(&x, pre, f); step(); if (!rc) fail("a length that cannot be held is read"); nx_free(x); rewind(f); char *y = nx_strread0(f); if (y) fail("a length that cannot be held is read as a new string"); nx_free(y); fclose(f); }
        if (heap() != h0) fail("refused length leaks"); state(mix(k, pre));
    }
    // hashes as text
    for (int n = 0; n <= 40; ++n) for (int k = 0; k < 256; k += n > 2 ? 17 : 1) if (begin("hash-text")) {
        std::vector<uint8_t> h(n ? n : 1); S e; for (int i = 0; i < n; ++i) { h[i] = (uint8_t)(k + i * 31); e += fmt("%02x", h[i]); }
        char *s = nx_hash_to_str(n, h.data()); step(); if (e != s) fail("hash text %s, expected %s", s, e.c_str()); nx_free(s); state(e);
    }
}

// ------------------------------------------------------------------ P10
struct OS { bool null = true; S s; bool operator==(const OS &o) const { return null == o.null && s == o.s; } };
static OS os(const S &s) { OS o; o.null = false; o.s = s; return o; }
static int sa_va(NXStringArray *sa, int id, const char *f, ...) { va_list a; va_start(a, f); int r = id; if (id < 0) r = nx_string_array_vappendf(sa, f, a); else nx_string_array_vsetf(sa, id, f, a); va_end(a); return r; }
static S sa_diff(NXStringArray *sa, const std::vector<OS> &m) {
    step();
    if (nx_string_array_size(sa) != (int)m.size()) return fmt("size %d, expected %d", nx_string_array_size(sa), (int)m.size());
    char **p = nx_string_array_ptr(sa);
    for (int i = 0; i < (int)m.size(); ++i) {
        const char *g = nx_string_array_get(sa, i);
        if (g != p[i]) return fmt("element %d differs between accessors", i);
        if ((g == nullptr) != m[i].null || (g && m[i].s != g)) return fmt("element %d is '%s', expected '%s'", i, g ? esc(g).c_str() : "(unset)", m[i].null ? "(unset)" : esc(m[i].s).c_str());
    }
    return "";
}
static int sa_find(const std::vector<OS> &m, const S &s) { for (int i = 0; i < (int)m.size(); ++i) if (!m[i].null && m[i].s == s) return i; return -1; }
static void sa_io(const std::vector<OS> &m, NXStringArray *sa, bool all_cuts) {
    bool unset = false; for (auto &x : m) unset = unset || x.null;
    if (unset) { // there is no spelling for unset elements: they are refused
        cap([&](FILE *f) { if (nx_string_array_write(sa, f) == 0) fail("an unset element is written"); if (guarded([&] { nx_string_array_xwrite(sa, f); })) fail("xwrite of an unset element returns"); }); step(); return;
    }
    S d = cap([&](FILE *f) { if (nx_string_array_write(sa, f) != 0) fail("writing fails"); });
    S d2 = cap([&](FILE *f) { if (!guarded([&] { nx_string_array_xwrite(sa, f); })) fail("writing aborts"); });
    if (d != d2) fail("write and xwrite differ");
    for (size_t cut = all_cuts ? 0 : d.size(); cut <= d.size(); ++cut) {
        FILE *f = fmemopen((void *)d.data(), cut ? cut : 1, "r"); setvbuf(f, nullptr, _IONBF, 0); if (!cut) fgetc(f);
        size_t h0 = heap();
        NXStringArray *r = nx_string_array_read0(f); step();
        if ((r != nullptr) != (cut == d.size())) fail("reading %d of %d bytes %s", (int)cut, (int)d.size(), r ? "succeeds" : "fails");
        if (r) { S e = sa_diff(r, m); if (!e.empty()) fail("read back: %s", e.c_str()); nx_string_array_free(r); }
        if (heap() != h0) fail("reading %d of %d bytes leaks", (int)cut, (int)d.size());
        rewind(f); if (!cut) fgetc(f);
        NXStringArray *w = nx_string_array_alloc(); nx_string_array_append(w, "old"); nx_string_array_append(w, "older one"); nx_string_array_append(w, "x");
        int rc = nx_string_array_read(w, f); step();
        if ((rc == 0) != (cut == d.size())) fail("reading %d of %d bytes into an array returns %d", (int)cut, (int)d.size(), rc);
        if (rc == 0) { S e = sa_diff(w, m); if (!e.empty()) fail("read into used array: %s", e.c_str()); }
        nx_string_array_free(w);
        rewind(f); if (!cut) fgetc(f);
        NXStringArray *x = nullptr; bool ok = guarded([&] { x = nx_string_array_xread0(f); }); step();
        if (ok != (cut == d.size())) fail("xread0 of %d of %d bytes %s", (int)cut, (int)d.size(), ok ? "returns" : "aborts");
        if (ok) nx_string_array_free(x);
        fclose(f);
    }
}
static void p10() {
    const int NO = 11; int D = pick(5, 6); uint64_t tot = 1; for (int i = 0; i < D; ++i) tot *= NO;
    for (uint64_t k = 0; k < tot; ++k) if (begin("op-sequences")) {
        describe([&] { S s = "operations"; uint64_t v = k; for (int i = 0; i < D; ++i, v /= NO) s += fmt(" %d", (int)(v % NO)); return s; });
        NXStringArray *sa = nx_string_array_alloc(); std::vector<OS> m; uint64_t v = k;
        for (int i = 0; i < D; ++i) {
            int op = v % NO; v /= NO; int n = (int)m.size();
            switch (op) {
            case 0: if (nx_string_array_append(sa, fmt("v%d", i).c_str()) != n) fail("append returns a wrong index"); m.push_back(os(fmt("v%d", i))); break;
            case 1: if ((i % 2 ? sa_va(sa, -1, "%s-%d", "f", i) : nx_string_array_appendf(sa, "%s-%d", "f", i)) != n) fail("appendf returns a wrong index"); m.push_back(os(fmt("f-%d", i))); break;
            case 2: nx_string_array_append(sa, ""); m.push_back(os("")); break;
            case 3: nx_string_array_resize(sa, n + 2); m.resize(n + 2); break;
            case 4: if (n) { nx_string_array_resize(sa, n - 1); m.resize(n - 1); } break;
            case 5: if (n) { nx_string_array_set(sa, n - 1, "last"); m[n - 1] = os("last"); } break;
            case 6: if (n) { if (i % 2) sa_va(sa, 0, "%05d", i); else nx_string_array_setf(sa, 0, "%05d", i); m[0] = os(fmt("%05d", i)); } break;
            case 7: if (n) { nx_string_array_set(sa, n / 2, nullptr); m[n / 2] = OS(); } break;
            case 8: nx_string_array_clear(sa); m.clear(); break;
            case 9: if (n) { nx_string_array_set(sa, 0, nx_string_array_get(sa, n - 1)); m[0] = m[n - 1]; } break; // an element of itself
            case 10: if (n && !m[0].null && m[0].s.size() > 1) { nx_string_array_set(sa, 0, nx_string_array_get(sa, 0) + 1); m[0] = os(m[0].s.substr(1)); if (n > 1) { nx_string_array_setf(sa, n - 1, "<%s>", nx_string_array_get(sa, n - 1) ? nx_string_array_get(sa, n - 1) : "?"); m[n - 1] = os("<" + (m[n - 1].null ? S("?") : m[n - 1].s) + ">"); } } break;
            }
            S e = sa_diff(sa, m); if (!e.empty()) { fail("after operation %d (%d): %s", i, op, e.c_str()); break; }
            for (const char *q : {"", "last", "v0", "f-1"}) { step(); if (nx_string_array_find(sa, q) != sa_find(m, q)) fail("finding '%s' gives %d, expected %d", q, nx_string_array_find(sa, q), sa_find(m, q)); }
        }
        sa_io(m, sa, k % 64 == 0);
        { uint64_t h = m.size(); for (auto &x : m) h = mix(h, x.null ? 1 : hash(x.s)); state(h); }
        nx_string_array_free(sa);
    }
    for (int n = 0; n <= pick(300, 2000); ++n) if (begin("sizes")) {
        describe([&] { return fmt("%d elements", n); });
        size_t h0 = heap();
        {
            NXStringArray *a = nx_string_array_new(n); std::vector<OS> m(n); S e = sa_diff(a, m); if (!e.empty()) fail("new array of %d: %s", n, e.c_str());
            for (int i = 0; i < n; ++i) { nx_string_array_setf(a, i, "%0*d", i % 90 + 1, i); m[i] = os(fmt("%0*d", i % 90 + 1, i)); }
            if (n) { NXStringArray *b = nx_string_array_alloc(); std::vector<char *> l; for (auto &x : m) l.push_back((char *)x.s.c_str()); l.push_back(nullptr);
                nx_string_array_free(b); b = nx_string_array_new_from_null_terminated_list(l.data()); e = sa_diff(b, m); if (!e.empty()) fail("from list of %d: %s", n, e.c_str());
                if (nx_string_array_find(b, m[n - 1].s.c_str()) != sa_find(m, m[n - 1].s)) fail("find in %d", n); nx_string_array_free(b); }
            e = sa_diff(a, m); if (!e.empty()) fail("array of %d: %s", n, e.c_str());
            sa_io(m, a, n <= 4);
            nx_string_array_resize(a, n / 3); m.resize(n / 3); nx_string_array_resize(a, n); m.resize(n); e = sa_diff(a, m); if (!e.empty()) fail("shrunk and grown array of %d: %s", n, e.c_str());
            nx_string_array_free(a);
        }
        if (n > 4 && heap() != h0) fail("arrays of %d leak %ld bytes", n, (long)(heap() - h0));
        state(mix(n, 99));
    }
    for (int len = 1; len <= pick(70000, 300000); len = len < 40 ? len + 1 : len * 5 / 4 + 1) for (int k = 0; k < 3; ++k) if (begin("alike")) { // long strings that differ in one place
        describe([&] { return fmt("strings of %d characters that differ at %s", len, k == 0 ? "the end" : k == 1 ? "the middle" : "their length"); });
        S x(len, 'x'); for (int i = 0; i < len; ++i) x[i] = 'a' + (i * 7 + i / 26) % 26; S y = x; if (k == 0) y[len - 1]++; else if (k == 1) y[len / 2]++; else y += 'z';
        NXStringArray *a = nx_string_array_alloc(); nx_string_array_append(a, y.c_str()); step(); if (nx_string_array_find(a, x.c_str()) != -1) fail("a different string is found"); nx_string_array_append(a, x.c_str()); if (nx_string_array_find(a, x.c_str()) != 1) fail("found at %d, expected 1", nx_string_array_find(a, x.c_str())); if (nx_string_array_find(a, y.c_str()) != 0) fail("first not found"); nx_string_array_setf(a, 0, "%s%s", "", x.c_str()); if (nx_string_array_find(a, x.c_str()) != 0 || nx_string_array_find(a, y.c_str()) != -1) fail("after setting"); std::vector<OS> m{os(x), os(x)}; S e = sa_diff(a, m); if (!e.empty()) fail("%s", e.c_str()); sa_io(m, a, false); nx_string_array_free(a); state(mix(len, k));
    }
    for (int n : {-1, -2, -3, -4, -100, -65536, INT_MIN, INT_MIN + 1}) for (int used = 0; used < 6; ++used) for (int tail = 0; tail < 3; ++tail) if (begin("negative")) {
        describe([&] { return fmt("stored length %d followed by %d bytes, read into an array of %d", n, tail * 8, used); });
        size_t h0 = heap();
        { S d((const char *)&n, sizeof(n)); d += S(tail * 8, '\0'); FILE *f = fmemopen((void *)d.data(), d.size(), "r"); NXStringArray *a = nx_string_array_new(used); for (int i = 0; i < used; ++i) nx_string_array_setf(a, i, "e%d", i); int rc = nx_string_array_read(a, f); step(); if (!rc) fail("a negative length is read"); nx_string_array_append(a, "after"); if (S("after") != nx_string_array_get(a, nx_string_array_size(a) - 1)) fail("array unusable after a refused length"); rewind(f); NXStringArray *r = nx_string_array_read0(f); if (r) { fail("a negative length is read as a new array"); nx_string_array_free(r); } rewind(f); if (guarded([&] { nx_string_array_xread(a, f); })) fail("no fatal error for a negative length"); nx_string_array_free(a); fclose(f); }
        if (heap() != h0) fail("refused array leaks"); state(mix(n, used * 3 + tail));
    }
    for (int n : sizes(pick(5000, 70000))) for (int k = 0; k < 4; ++k) if (begin("large")) {
        describe([&] { return fmt("%d elements, way %d", n, k); });
        size_t h0 = heap();
        {
            NXStringArray *a = k == 2 ? nx_string_array_new(n) : nx_string_array_alloc(); std::vector<OS> m; auto chk = [&](const char *w) { S e = sa_diff(a, m); if (!e.empty()) fail("%s, %d elements: %s", w, n, e.c_str()); };
            for (int i = 0; i < n; ++i) {
                S x = i % 1000 == 7 ? S(i % 3 ? n : 300, 'l') : fmt("%d", i % 97 ? i : 97); int id = i;
                if (k == 0) id = nx_string_array_append(a, x.c_str()); else if (k == 1) id = nx_string_array_appendf(a, "%s", x.c_str()); else if (k == 2) nx_string_array_set(a, i, x.c_str()); else { if (i == n / 2) { nx_string_array_resize(a, n); m.resize(n); for (int q = i; q < n; ++q) if (nx_string_array_get(a, q)) { fail("new element %d of %d is set", q, n); break; } m.resize(i); } if (i < n / 2) id = nx_string_array_append(a, x.c_str()); else nx_string_array_setf(a, i, "%s", x.c_str()); }
                if (id != i) { fail("appending returns %d, expected %d", id, i); break; } m.push_back(os(x)); }
            chk("filled"); for (int i = 0; i < n; i += n / 13 + 1) { step(); if (nx_string_array_find(a, m[i].s.c_str()) != sa_find(m, m[i].s)) fail("finding element %d of %d", i, n); } if (nx_string_array_find(a, m[n - 1].s.c_str()) != sa_find(m, m[n - 1].s)) fail("finding the last of %d", n); if (nx_string_array_find(a, "nowhere") != -1) fail("found what is not there");
            sa_io(m, a, false);
            { S d = cap([&](FILE *f) { nx_string_array_write(a, f); }); for (size_t cut : {d.size() - 1, d.size() / 2, d.size() / 2 + 1, (size_t)12, (size_t)5}) { FILE *f = fmemopen((void *)d.data(), cut, "r"); NXStringArray *r = nx_string_array_read0(f); step(); if (r) { fail("%d of %d bytes are read as an array", (int)cut, (int)d.size()); nx_string_array_free(r); } fclose(f); }
              FILE *f = fmemopen((void *)d.data(), d.size(), "r"); NXStringArray *u = nx_string_array_new(3 * n / 2); for (int i = 0; i < 3 * n / 2; i += 2) nx_string_array_set(u, i, "used"); if (!guarded([&] { nx_string_array_xread(u, f); })) fail("reading into a larger array fails"); else { S e = sa_diff(u, m); if (!e.empty()) fail("read into a larger array: %s", e.c_str()); } nx_string_array_free(u); fclose(f); }
            for (int i = 0; i < n; i += 5) { nx_string_array_set(a, i, nullptr); m[i] = OS(); } chk("partly unset"); if (nx_string_array_find(a, m[n - 1].s.c_str()) != sa_find(m, m[n - 1].s)) fail("finding among unset elements");
            nx_string_array_set(a, n / 2, S(5000, 'w').c_str()); m[n / 2] = os(S(5000, 'w')); nx_string_array_resize(a, n / 2 + 1); m.resize(n / 2 + 1); chk("shrunk"); nx_string_array_resize(a, n + 9); m.resize(n + 9); chk("grown"); nx_string_array_clear(a); m.clear(); chk("cleared"); nx_string_array_append(a, "again"); m.push_back(os("again")); chk("used again");
            nx_string_array_free(a);
        }
        if (heap() != h0) fail("arrays of %d leak %ld bytes", n, (long)(heap() - h0));
        state(mix(n, k));
    }
}

// ------------------------------------------------------------------ P11
struct MB { // model of a memory block
    bool has = false, own = false; int ext = -1; size_t size = 0, cap = 0; std::vector<int> b; // -1: unknown byte
};
static void p11() {
    const int NO = 15; int D = pick(5, 6); uint64_t tot = 1; for (int i = 0; i < D; ++i) tot *= NO;
    for (uint64_t k = 0; k < tot; ++k) if (begin("block-sequences")) {
        describe([&] { S s = "operations"; uint64_t v = k; for (int i = 0; i < D; ++i, v /= NO) s += fmt(" %d", (int)(v % NO)); return s; });
        size_t h0 = heap();
        bool bad = false;
        {
            uint8_t ext[2][12]; for (int e = 0; e < 2; ++e) for (int i = 0; i < 12; ++i) ext[e][i] = (uint8_t)(100 * e + i);
            uint8_t ref[2][12]; memcpy(ref, ext, sizeof ext);
            NXMemBlock *B[2] = {nx_mem_block_alloc(), (k & 1) ? nx_mem_block_new(0) : nx_mem_block_alloc()}; MB M[2];
            std::vector<int> known[2];
            auto val = [&](int i, size_t j) -> int { MB &m = M[i]; if (m.ext >= 0) return ref[m.ext][j]; return j < m.b.size() ? m.b[j] : -1; };
            auto setv = [&](int i, size_t j, int v) { MB &m = M[i]; if (m.ext >= 0) ref[m.ext][j] = v < 0 ? ext[m.ext][j] : (uint8_t)v; else { if (m.b.size() <= j) m.b.resize(j + 1, -1); m.b[j] = v; } };
            auto grow = [&](int i, size_t c) { MB &m = M[i]; if (c > m.cap) { std::vector<int> nb(m.size); for (size_t j = 0; j < m.size; ++j) nb[j] = val(i, j); m.b = nb; m.ext = -1; m.own = true; m.cap = c; } };
            auto resize = [&](int i, size_t n) { grow(i, n); MB &m = M[i]; if (m.ext < 0 && n > m.size) { m.b.resize(m.size); m.b.resize(n, -1); } m.size = n; if (m.ext < 0) m.b.resize(n, -1); };
            uint64_t v = k;
            for (int st = 0; st < D && !bad; ++st) {
                int op = v % NO; v /= NO; int t = st & 1; // the operations alternate between the blocks
                void *r = nullptr; bool chk = false;
                switch (op) {
                case 0: case 1: case 2: case 3: { size_t n = (size_t[]){0, 3, 8, 40}[op]; r = nx_mem_block_resize(B[t], n); resize(t, n); chk = true; break; }
                case 4: case 5: { size_t n = op == 4 ? 8 : 64; r = nx_mem_block_reserve(B[t], n); grow(t, n); chk = true; break; }
                case 6: nx_mem_block_release(B[t]); M[t] = MB(); break;
                case 7: if (M[0].ext == t || M[1].ext == t) break; r = nx_mem_block_wrap(B[t], ext[t], 5, 12, NX_FALSE); M[t] = MB(); M[t].ext = t; M[t].size = 5; M[t].cap = 12; chk = true; break;
                case 8: { uint8_t *p = (uint8_t *)nx_xmalloc(10); for (int i = 0; i < 10; ++i) p[i] = (uint8_t)(200 + i); r = nx_mem_block_wrap(B[t], p, 7, 10, NX_TRUE); M[t] = MB(); M[t].own = true; M[t].size = 7; M[t].cap = 10; for (int i = 0; i < 7; ++i) M[t].b.push_back(200 + i); chk = true; break; }
                case 9: nx_mem_block_swap(B[0], B[1]); std::swap(M[0], M[1]); break;
                case 10: case 11: { int s = op == 10 ? t : 1 - t, d = 1 - s; nx_mem_block_copy(B[d], B[s]); std::vector<int> sv; for (size_t j = 0; j < M[s].size; ++j) sv.push_back(val(s, j)); resize(d, M[s].size); for (size_t j = 0; j < sv.size(); ++j) setv(d, j, sv[j]); break; }
                case 12: nx_mem_block_set_zero(B[t]); for (size_t j = 0; j < M[t].size; ++j) setv(t, j, 0); break;
                case 13: for (size_t j = 0; j < M[t].size; ++j) { ((uint8_t *)B[t]->ptr)[j] = (uint8_t)(st * 16 + j); setv(t, j, (uint8_t)(st * 16 + j)); } break;
                case 14: { NXMemBlock *c = nx_mem_block_copy0(B[t]); if (c->size != M[t].size || (M[t].size && c->ptr == B[t]->ptr)) { fail("copy has size %d, expected %d", (int)c->size, (int)M[t].size); bad = true; }
                    else for (size_t j = 0; j < M[t].size; ++j) if (val(t, j) >= 0 && ((uint8_t *)c->ptr)[j] != val(t, j)) { fail("copy differs at %d", (int)j); bad = true; break; }
                    nx_mem_block_free(B[t]); B[t] = c; { std::vector<int> nb; for (size_t j = 0; j < M[t].size; ++j) nb.push_back(val(t, j)); size_t s = M[t].size; M[t] = MB(); M[t].size = s; M[t].cap = c->capacity; M[t].own = c->own_memory; M[t].b = nb; if (s && !c->own_memory) { fail("copy does not own its memory"); bad = true; } } break; }
                }
                step();
                if (chk && r != B[t]->ptr) { fail("operation %d returns another pointer than the block holds", op); bad = true; }
                for (int i = 0; i < 2 && !bad; ++i) {
                    NXMemBlock *b = B[i]; MB &m = M[i];
                    if (b->size != m.size || b->capacity < m.cap || b->capacity < b->size) { fail("after operation %d: size %d capacity %d, expected size %d and capacity of at least %d", op, (int)b->size, (int)b->capacity, (int)m.size, (int)m.cap); bad = true; break; }
                    m.cap = b->capacity;
                    if ((m.ext >= 0) != (b->ptr == ext[0] || b->ptr == ext[1])) { fail("after operation %d: the block %s the caller's buffer", op, m.ext >= 0 ? "left" : "still uses"); bad = true; break; }
                    if (b->ptr && (bool)b->own_memory != (m.ext < 0)) { fail("after operation %d: wrong ownership", op); bad = true; break; }
                    if (b->size && b->capacity) { volatile uint8_t c = ((uint8_t *)b->ptr)[b->capacity - 1]; (void)c; } // capacity is really there
                    for (size_t j = 0; j < m.size; ++j) { int e = val(i, j); if (e >= 0 && ((uint8_t *)b->ptr)[j] != e) { fail("after operation %d: block %d byte %d is %d, expected %d", op, i, (int)j, ((uint8_t *)b->ptr)[j], e); bad = true; break; } }
                }
                if (!bad && memcmp(ext, ref, sizeof ext)) { fail("after operation %d: bytes of the caller's buffer changed", op); bad = true; }
                state(mix(mix(M[0].size, M[0].ext + 2 * M[0].own), mix(M[1].size, M[1].ext + 2 * M[1].own)));
            }
            nx_mem_block_free(B[0]); nx_mem_block_free(B[1]);
        }
        if (!bad && heap() != h0) fail("%ld bytes are not returned", (long)(heap() - h0));
    }
    // keypoint vectors
    const int VO = 10; D = pick(6, 7); tot = 1; for (int i = 0; i < D; ++i) tot *= VO;
    for (uint64_t k = 0; k < tot; ++k) if (begin("vector-sequences")) {
        describe([&] { S s = "operations"; uint64_t v = k; for (int i = 0; i < D; ++i, v /= VO) s += fmt(" %d", (int)(v % VO)); return s; });
        size_t h0 = heap(); bool bad = false;
        {
            NXKeypoint ext[3]; memset(ext, 0, sizeof ext); for (int i = 0; i < 3; ++i) ext[i].id = 7000 + i;
            NXKeypointVector *a = (k & 1) ? nx_keypoint_vector_new(2) : nx_keypoint_vector_alloc(), *b = nx_keypoint_vector_alloc();
            std::vector<long> ma, mb; bool wrapped = false; uint64_t v = k; // -1: not initialised
            for (int st = 0; st < D && !bad; ++st) {
                int op = v % VO; v /= VO;
                switch (op) {
                case 0: { NXKeypoint *p = nx_keypoint_vector_push_back(a); p->id = 100 + st; p->x = -st; p->ori = st * .5f; ma.push_back(100 + st); if (p != a->data + a->size - 1) { fail("push_back does not return the new element"); bad = true; } if (ma.size() > 3) wrapped = false; break; }
                case 1: for (int j = 0; j < 3; ++j) { NXKeypoint *p = nx_keypoint_vector_push_back(a); p->id = 1000 * st + j; ma.push_back(1000 * st + j); } if (ma.size() > 3) wrapped = false; break;
                case 2: nx_keypoint_vector_resize(a, ma.size() + 2); ma.resize(ma.size() + 2, -1); if (ma.size() > 3) wrapped = false; for (size_t j = 0; j < ma.size(); ++j) if (ma[j] == -1) { a->data[j].id = 55; ma[j] = 55; } break;
                case 3: { size_t n = ma.size() / 2; nx_keypoint_vector_resize(a, n); ma.resize(n); break; }
                case 4: nx_keypoint_vector_clear(a); ma.clear(); break;
                case 5: nx_keypoint_vector_reserve(a, 5); wrapped = false; if (a->capacity >= 5) memset((void *)(a->data + a->size), 0x5a, (a->capacity - a->size) * sizeof(NXKeypoint)); if (a->capacity < 5) { fail("reserve gives a capacity of %d", (int)a->capacity); bad = true; } break;
                case 6: nx_keypoint_vector_copy(b, a); mb = ma; break;
                case 7: std::swap(a, b); std::swap(ma, mb); wrapped = false; break;
                case 8: { nx_keypoint_vector_wrap(b, ext, 2, 3, NX_FALSE); mb = {(long)ext[0].id, (long)ext[1].id}; nx_keypoint_vector_release(b); mb.clear(); if (b->capacity || b->size || b->data) { fail("a released vector keeps capacity %d", (int)b->capacity); bad = true; } break; }
                case 9: { NXKeypointVector *c = nx_keypoint_vector_copy0(a); nx_keypoint_vector_free(b); b = c; mb = ma; break; }
                }
                step();
                for (int w = 0; w < 2 && !bad; ++w) {
                    NXKeypointVector *x = w ? b : a; auto &m = w ? mb : ma;
                    if (x->capacity * sizeof(NXKeypoint) > x->mem->capacity || (void *)x->data != (void *)x->mem->ptr) { fail("after operation %d: the vector claims a capacity of %d elements", op, (int)x->capacity); bad = true; break; }
                    if (x->size != m.size() || x->capacity < x->size) { fail("after operation %d: size %d capacity %d, expected size %d", op, (int)x->size, (int)x->capacity, (int)m.size()); bad = true; break; }
                    for (size_t j = 0; j < m.size(); ++j) if ((long)x->data[j].id != m[j]) { fail("after operation %d: element %d is %ld, expected %ld", op, (int)j, (long)x->data[j].id, m[j]); bad = true; break; }
                    if (x->size && a->data == b->data) { fail("two vectors share their elements"); bad = true; }
                }
                { uint64_t h = ma.size(); for (long x : ma) h = mix(h, x); for (long x : mb) h = mix(h, x); state(h); }
            }
            (void)wrapped;
            nx_keypoint_vector_free(a); nx_keypoint_vector_free(b);
        }
        if (!bad && heap() != h0) fail("%ld bytes are not returned", (long)(heap() - h0));
    }
    for (int n = 0; n <= 40; ++n) for (int cp = 0; cp <= 12; ++cp) if (begin("vector-wrap")) { // growth out of a caller's buffer keeps elements
        std::vector<NXKeypoint> buf(12); for (int i = 0; i < 12; ++i) { memset(&buf[i], 0, sizeof buf[i]); buf[i].id = i; buf[i].x = i * 3; }
        auto keep = buf; int sz = cp / 2;
        NXKeypointVector *v = nx_keypoint_vector_alloc(); nx_keypoint_vector_wrap(v, buf.data(), sz, cp, NX_FALSE); step();
        for (int i = 0; i < n; ++i) { NXKeypoint *p = nx_keypoint_vector_push_back(v); memset(p, 0, sizeof *p); p->id = 500 + i; step(); }
        if ((int)v->size != sz + n) fail("size %d", (int)v->size); else for (int i = 0; i < sz + n; ++i) if (v->data[i].id != (uint64_t)(i < sz ? i : 500 + i - sz)) { fail("element %d of %d+%d (capacity %d)", i, sz, n, cp); break; }
        for (int i = cp; i < 12; ++i) if (memcmp(&buf[i], &keep[i], sizeof keep[i])) fail("wrote past the wrapped capacity");
        for (int i = 0; i < sz; ++i) if (memcmp(&buf[i], &keep[i], sizeof keep[i])) fail("wrapped element %d changed", i);
        nx_keypoint_vector_free(v); state(mix(n, cp));
    }
    for (int n : sizes(pick(9000, 300000))) for (int k = 0; k < 6; ++k) if (begin("large-blocks")) {
        describe([&] { return fmt("block of %d, way %d", n, k); });
        size_t h0 = heap();
        {
            S t = bytes(n, n + k, true); NXMemBlock *b = k == 0 ? nx_mem_block_new(n) : nx_mem_block_alloc(), *c = nx_mem_block_alloc(); char *ext = k == 1 ? exact(t) : nullptr;
            auto same = [&](NXMemBlock *x, size_t sz, const char *w) { step(); if (x->size != sz || x->capacity < sz) fail("%s %d: size %d capacity %d", w, n, (int)x->size, (int)x->capacity); else if (memcmp(x->ptr, t.data(), std::min<size_t>(sz, n))) fail("%s %d: contents changed", w, n); else if (x->capacity) { volatile char q = ((char *)x->ptr)[x->capacity - 1]; (void)q; } };
            switch (k) { case 1: nx_mem_block_wrap(b, ext, n, n, NX_FALSE); break; case 2: nx_mem_block_wrap(b, memcpy(nx_xmalloc(n), t.data(), n), n, n, NX_TRUE); break; case 3: nx_mem_block_resize(b, n / 2); memcpy(b->ptr, t.data(), n / 2); nx_mem_block_reserve(b, n); nx_mem_block_resize(b, n); break; case 4: for (int i = 0; i < n; i += 97) { nx_mem_block_resize(b, i); if (i) ((char *)b->ptr)[i - 1] = t[i - 1]; } nx_mem_block_resize(b, n); break; case 5: nx_mem_block_reserve(b, 3 * n); nx_mem_block_resize(b, n); break; }
            if (k == 3) { if (memcmp(b->ptr, t.data(), n / 2)) fail("%d bytes change when growing to %d", n / 2, n); } if (k == 4) for (int i = 97; i < n; i += 97) if (((char *)b->ptr)[i - 1] != t[i - 1]) { fail("byte %d changes while growing to %d", i - 1, n); break; }
            if (k != 1 && k != 2) memcpy(b->ptr, t.data(), n); same(b, n, "block of");
            nx_mem_block_copy(b, b); same(b, n, "self-copied block of"); nx_mem_block_swap(b, b); same(b, n, "self-swapped block of");
            nx_mem_block_copy(c, b); same(c, n, "copy of"); if (c->ptr == b->ptr) fail("copy shares"); nx_mem_block_reserve(b, n + n / 2); same(b, n, "reserved block of"); nx_mem_block_resize(b, 2 * n + 1); same(b, 2 * n + 1, "grown block of"); nx_mem_block_resize(b, n / 2); same(b, n / 2, "shrunk block of"); nx_mem_block_resize(b, n / 2 + 1); if (memcmp(b->ptr, t.data(), n / 2)) fail("contents lost"); nx_mem_block_swap(b, c); same(b, n, "swapped block of");
            if (ext && memcmp(ext, t.data(), n)) fail("the caller's memory changed"); NXMemBlock *d = nx_mem_block_copy0(b); same(d, n, "new copy of"); memset(d->ptr, 1, n); same(b, n, "copied block of"); nx_mem_block_resize(d, n - 1); nx_mem_block_set_zero(d); for (int i = 0; i < n - 1; ++i) if (((char *)d->ptr)[i]) { fail("byte %d is not zeroed", i); break; } if (((char *)d->ptr)[n - 1] != 1 && d->capacity >= (size_t)n) {} nx_mem_block_free(d); nx_mem_block_release(c); if (c->size || c->capacity) fail("released block is not empty");
            nx_mem_block_free(b); nx_mem_block_free(c); free(ext);
        }
        if (heap() != h0) fail("blocks of %d leak", n); state(mix(n, k));
    }
    for (int n : sizes(pick(5000, 70000))) for (int k = 0; k < 3; ++k) if (begin("large-vectors")) {
        describe([&] { return fmt("vector of %d, way %d", n, k); });
        size_t h0 = heap();
        {
            NXKeypointVector *v = k == 1 ? nx_keypoint_vector_new(n) : nx_keypoint_vector_alloc(), *w = nx_keypoint_vector_alloc(); if (k == 2) { nx_keypoint_vector_reserve(v, n / 2); if (v->capacity < (size_t)n / 2) fail("reserved %d", n / 2); }
            auto put = [&](NXKeypoint *p, int i) { memset(p, 0, sizeof *p); p->id = 3 * i + 1; p->x = -i; p->score = i; }; auto is = [&](NXKeypointVector *x, size_t sz, size_t known, const char *what) { step(); if (x->size != sz || x->capacity < sz) { fail("%s of %d has size %d", what, n, (int)x->size); return; } for (size_t i = 0; i < std::min(sz, known); ++i) if (x->data[i].id != 3 * i + 1 || x->data[i].x != -(int)i || x->data[i].score != (int)i) { fail("%s of %d: element %d changed", what, n, (int)i); return; } };
            if (k == 1) { if (v->size || v->capacity < (size_t)n) fail("new vector of %d", n); nx_keypoint_vector_resize(v, n); for (int i = 0; i < n; ++i) put(v->data + i, i); } else for (int i = 0; i < n; ++i) put(nx_keypoint_vector_push_back(v), i);
            is(v, n, n, "vector"); nx_keypoint_vector_copy(w, v); is(w, n, n, "copy"); nx_keypoint_vector_resize(v, n / 3); is(v, n / 3, n, "shrunk vector"); nx_keypoint_vector_resize(v, 2 * n); is(v, 2 * n, n / 3, "grown vector"); put(nx_keypoint_vector_push_back(w), n); is(w, n + 1, n + 1, "extended copy"); nx_keypoint_vector_copy(v, w); is(v, n + 1, n + 1, "copy into a larger one"); nx_keypoint_vector_clear(w); is(w, 0, 0, "cleared copy"); is(v, n + 1, n + 1, "vector"); NXKeypointVector *c = nx_keypoint_vector_copy0(v); is(c, n + 1, n + 1, "new copy"); nx_keypoint_vector_free(c);
            nx_keypoint_vector_free(v); nx_keypoint_vector_free(w);
        }
        if (heap() != h0) fail("vectors of %d leak", n); state(mix(n, k));
    }
}

// ------------------------------------------------------------------ P12
// FIPS 180-4, with the round constants derived from the primes instead of a table
struct Sha {
    uint32_t K[64], H0[8];
    Sha() {
        int p = 2; for (int i = 0; i < 64; ++p) { bool pr = true; for (int q = 2; q * q <= p; ++q) if (p % q == 0) pr = false; if (!pr) continue;
            K[i] = frac(p, 3); if (i < 8) H0[i] = frac(p, 2); ++i; }
    }
    // first 32 bits of the fractional part of p^(1/e), by exact integer root of p << (32*e)
    static uint32_t frac(int p, int e) {
        unsigned __int128 lo = 0, hi = (unsigned __int128)1 << 36, tgt = (unsigned __int128)p << (32 * e);
        while (hi - lo > 1) { unsigned __int128 m = (lo + hi) / 2; unsigned __int128 pw = e == 2 ? m * m : m * m * m; if (pw <= tgt) lo = m; else hi = m; }
        return (uint32_t)lo;
    }
    static uint32_t rr(uint32_t x, int n) { return x >> n | x << (32 - n); }
    S operator()(const S &in) const {
        S m = in; m += (char)0x80; while (m.size() % 64 != 56) m += (char)0; uint64_t bl = (uint64_t)in.size() * 8; for (int i = 7; i >= 0; --i) m += (char)(bl >> (8 * i));
        uint32_t h[8]; memcpy(h, H0, sizeof h);
        for (size_t o = 0; o < m.size(); o += 64) {
            uint32_t w[64]; for (int i = 0; i < 16; ++i) w[i] = (uint32_t)(uint8_t)m[o + 4 * i] << 24 | (uint32_t)(uint8_t)m[o + 4 * i + 1] << 16 | (uint32_t)(uint8_t)m[o + 4 * i + 2] << 8 | (uint8_t)m[o + 4 * i + 3];
            for (int i = 16; i < 64; ++i) w[i] = w[i - 16] + (rr(w[i - 15], 7) ^ rr(w[i - 15], 18) ^ (w[i - 15] >> 3)) + w[i - 7] + (rr(w[i - 2], 17) ^ rr(w[i - 2], 19) ^ (w[i - 2] >> 10));
            uint32_t v[8]; memcpy(v, h, sizeof v);
            for (int i = 0; i < 64; ++i) { uint32_t t1 = v[7] + (rr(v[4], 6) ^ rr(v[4], 11) ^ rr(v[4], 25)) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + K[i] + w[i], t2 = (rr(v[0], 2) ^ rr(v[0], 13) ^ rr(v[0], 22)) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
                for (int j = 7; j; --j) v[j] = v[j - 1]; v[4] += t1; v[0] = t1 + t2; }
            for (int i = 0; i < 8; ++i) h[i] += v[i];
        }
        S r; for (int i = 0; i < 8; ++i) for (int b = 3; b >= 0; --b) r += (char)(h[i] >> (8 * b)); return r;
    }
};
static S hex(const S &s) { S o; for (unsigned char c : s) o += fmt("%02x", c); return o; }
static void p12() {
    Sha sha;
    if (hex(sha("abc")) != "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad") { begin("selftest"); fail("reference digest is broken"); return; }
    auto msg = [](int n, int seed) { S t(n, 0); uint32_t x = 12345u + seed * 77u; for (int i = 0; i < n; ++i) { x = x * 1664525u + 1013904223u; t[i] = seed == 0 ? 0 : seed == 1 ? (char)0xff : (char)(x >> 24); } return t; };
    auto one = [&](const S &t) {
        uint8_t *b = (uint8_t *)exact(t); uint8_t *h = (uint8_t *)malloc(32);
        nx_sha256(h, b, t.size()); step(); S e = sha(t); if (memcmp(h, e.data(), 32)) fail("digest of %d bytes is %s, expected %s", (int)t.size(), hex(S((char *)h, 32)).c_str(), hex(e).c_str());
        state(e); free(b); free(h);
    };
    for (int n = 0; n <= pick(600, 2100); ++n) for (int s = 0; s < 4; ++s) if (begin("lengths")) { describe([&] { return fmt("%d bytes, pattern %d", n, s); }); one(msg(n, s)); }
    // every single bit matters
    for (int n : {1, 55, 56, 63, 64, 65, 119, 120, 128}) for (int bit = 0; bit < n * 8; ++bit) if (begin("bits")) { S t = msg(n, 2); t[bit / 8] ^= 1 << (bit % 8); one(t); }
    // all splits of a message into up to three parts (four in the thorough tier), including empty parts
    for (int n : {0, 1, 3, 55, 56, 63, 64, 65, 100, 127, 128, 129}) for (int a = 0; a <= n; ++a) for (int b = a; b <= n; b += (n > 70 ? pick(5, 1) : 1)) for (int c = b; c <= n; c += pick(n + 1, n > 20 ? 13 : 1))
        if (begin("splits")) {
            describe([&] { return fmt("%d bytes split at %d %d %d", n, a, b, c); });
            S t = msg(n, 3); std::vector<S> parts{t.substr(0, a), t.substr(a, b - a), t.substr(b, c - b), t.substr(c)};
            std::vector<uint8_t *> p; std::vector<size_t> l; for (auto &x : parts) { p.push_back((uint8_t *)exact(x)); l.push_back(x.size()); }
            for (int np = 1; np <= 4; ++np) { S e; for (int i = 0; i < np; ++i) e += parts[i]; uint8_t h[32]; nx_sha256_multi(h, np, p.data(), l.data()); step(); e = sha(e); if (memcmp(h, e.data(), 32)) fail("digest of %d parts of %d bytes (split %d %d %d) is wrong", np, n, a, b, c); state(e); }
            for (auto q : p) free(q);
        }
    // many parts
    for (int np = 1; np <= pick(200, 700); ++np) for (int w = 0; w < 3; ++w) if (begin("parts")) {
        S all; std::vector<uint8_t *> p; std::vector<size_t> l; for (int i = 0; i < np; ++i) { S x = msg(w == 0 ? 1 : w == 1 ? i % 3 : (i * 37) % 70, 5 + i); all += x; p.push_back((uint8_t *)exact(x)); l.push_back(x.size()); }
        uint8_t h[32]; nx_sha256_multi(h, np, p.data(), l.data()); step(); S e = sha(all); if (memcmp(h, e.data(), 32)) fail("digest of %d parts (%d bytes) is wrong", np, (int)all.size()); state(e);
        for (auto q : p) free(q);
    }
    for (int n : sizes(pick(140000, 4000000))) for (int s = 0; s < 4; ++s) if (begin("long")) { describe([&] { return fmt("%d bytes, pattern %d", n, s); }); one(msg(n, s)); }
    // lengths whose bit count needs more than 32 bits, as repetitions of one part; digests computed elsewhere
    static const struct { uint64_t n; const char *d; } HUGE_[] = {{536870911, "0cc2a7b2781c1f30e65d8efe301c5b1671a412f2182b20041df69cb5dea7ac53"}, {536870912, "ea2fe8bd70593a002cbdd820a2d0e650aa14357f3ef4b6de07e75ec79430e65d"}, {536870917, "965537e358d56c44bce558ce47cf77c8e789b39abb00af57e0ee513a732153b3"}, {2147483649ull, "1615a83bcec0fd520207aaf5e50e93b56c2342694fe0736dfa044353d27a83d2"}, {4294967366ull, "da8aae3f74b23bbe02b93172a0756b89b428409c29ecd4326cf6f783d02eb7e9"}};
    for (auto &c : HUGE_) if ((c.n != 2147483649ull || thorough()) && begin("huge")) {
        describe([&] { return fmt("%llu bytes", (unsigned long long)c.n); });
        const size_t M = 1 << 20; uint8_t *b = (uint8_t *)malloc(M); for (size_t i = 0; i < M; ++i) b[i] = (uint8_t)(i * 7 + 3);
        std::vector<const uint8_t *> p; std::vector<size_t> l; for (uint64_t left = c.n; left;) { size_t x = std::min<uint64_t>(left, M); p.push_back(b); l.push_back(x); left -= x; }
        uint8_t h[32]; nx_sha256_multi(h, p.size(), p.data(), l.data()); step(); if (hex(S((char *)h, 32)) != c.d) fail("digest of %llu bytes is %s", (unsigned long long)c.n, hex(S((char *)h, 32)).c_str()); state(c.n); free(b);
    }
    for (int n : sizes(pick(70000, 1000000))) for (int k = 0; k < 5; ++k) if (begin("long-parts")) {
        describe([&] { return fmt("%d bytes in parts, way %d", n, k); });
        S t = msg(n, 3 + k); std::vector<size_t> l; size_t left = n; for (int i = 0; left; ++i) { size_t c = k == 0 ? 63 : k == 1 ? 64 : k == 2 ? 1000 + i : k == 3 ? (i % 3 ? 1 : 4096) : i == 1 ? 0 : n / 2 + 1; c = std::min(c, left); l.push_back(c); left -= c; }
        std::vector<uint8_t *> p; size_t at = 0; for (size_t x : l) { p.push_back((uint8_t *)exact(t.substr(at, x))); at += x; }
        uint8_t h[32]; nx_sha256_multi(h, l.size(), p.data(), l.data()); step(); S e = sha(t); if (memcmp(h, e.data(), 32)) fail("digest of %d bytes in %d parts is wrong", n, (int)l.size()); state(e); for (auto q : p) free(q);
    }
}

// ------------------------------------------------------------------ P13
static int pc(uint64_t x) { int c = 0; while (x) { c += x & 1; x >>= 1; } return c; }
static void p13() {
    // all 16 bit halves of a 32 bit word and all bytes at all places of a 64 bit word, plus all two-bit patterns
    for (uint32_t hi = 0; hi < 65536; hi += pick(257, 1)) if (begin("count32")) {
        bool bad = false;
        for (uint32_t lo = 0; lo < 65536 && !bad; lo += pick(13, 1)) for (int sw = 0; sw < 2; ++sw) { uint32_t x = sw ? lo << 16 | hi : hi << 16 | lo; if (nx_bit_count32(x) != __builtin_popcount(x)) { fail("bit count of %08x is %d", x, nx_bit_count32(x)); bad = true; break; } }
        step(65536); state(mix(hi, 32));
    }
    for (int a = 0; a < 64; ++a) for (int b = 0; b < 64; ++b) if (begin("count64")) {
        uint64_t A = 1ull << a, B = 1ull << b; for (uint64_t x : std::vector<uint64_t>{A | B, ~(A | B), A - 1, (A - 1) ^ (B - 1), A * 0xff, 0x0101010101010101ull * (a * 4 + 1) ^ B, ~0ull >> a << b}) { step(); if (nx_bit_count64(x) != pc(x)) fail("bit count of %016llx is %d, expected %d", (unsigned long long)x, nx_bit_count64(x), pc(x)); }
        state(mix(a, b));
        if (a > 0 && a < 32) for (uint32_t x : {(uint32_t)B, (uint32_t)~B, 0x12345678u, (uint32_t)(B * 3)}) { step(); uint32_t e = 0; for (int i = 0; i < 32; ++i) if (x >> ((i + a) % 32) & 1) e |= 1u << i; if (nx_rotr32(x, a) != e) fail("rotate %08x by %d", x, a); }
        if (a > 0) for (uint64_t x : std::vector<uint64_t>{B, ~B, 0x123456789abcdef0ull, B * 3}) { step(); uint64_t e = 0; for (int i = 0; i < 64; ++i) if (x >> ((i + a) % 64) & 1) e |= 1ull << i; if (nx_rotr64(x, a) != e) fail("rotate %016llx by %d", (unsigned long long)x, a); }
        uint8_t w[8]; uint64_t x = A | B | (uint64_t)a << 20; nx_split_big_endian64(w, x); uint64_t y = 0; for (int i = 0; i < 8; ++i) y = y << 8 | w[i]; if (x != y) fail("big endian 64 of %016llx", (unsigned long long)x);
        uint32_t x3 = (uint32_t)(x ^ x >> 32); nx_split_big_endian32(w, x3); uint32_t y3 = 0; for (int i = 0; i < 4; ++i) y3 = y3 << 8 | w[i]; if (x3 != y3 || nx_compose_big_endian32(w) != x3) fail("big endian 32 of %08x", x3);
    }
    // bit arrays: each operation sequence on each size, against an array of booleans
    for (int n = 1; n <= pick(40, 90); ++n) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (begin("bit-arrays")) {
        uint8_t *a = nx_bit_array_new(n); nx_bit_array_set_zero(n, a); std::vector<bool> m(n);
        auto cmp = [&](const char *w) { step(); for (int q = 0; q < n; ++q) if ((bool)nx_bit_array_get(a, q) != m[q]) { fail("%d bits, %s at %d, %d: bit %d is wrong", n, w, i, j, q); return; } };
        cmp("zero"); nx_bit_array_set(a, i, NX_TRUE); m[i] = true; cmp("set"); nx_bit_array_set(a, j, NX_TRUE); m[j] = true; cmp("set second"); nx_bit_array_set(a, i, NX_FALSE); m[i] = false; cmp("clear");
        for (int q = 0; q < n; ++q) { nx_bit_array_set(a, q, NX_TRUE); m[q] = true; } nx_bit_array_set(a, j, NX_FALSE); m[j] = false; cmp("all but one");
        nx_bit_array_set_zero(n, a); for (int q = 0; q < n; ++q) m[q] = false; cmp("zero again"); nx_free(a); state(mix(n, i));
    }
    using virg::nexus::VGDescriptorMap; using virg::nexus::VGBriefExtractor;
    auto ham = [](const S &a, const S &b) { int d = 0; for (size_t i = 0; i < a.size(); ++i) d += __builtin_popcount((uint8_t)(a[i] ^ b[i])); return d; };
    // Hamming distances: every pair of differing bits, for descriptor sizes used by the library (multiples of 8 octets)
    for (int no = 8; no <= pick(64, 128); no += 8) for (int i = 0; i < no * 8; ++i) if (begin("hamming")) {
        for (int j = i; j < no * 8; j += 1 + (j - i) / 3) {
            S a(no, 0); for (int q = 0; q < no; ++q) a[q] = (char)(q * 91 + 7); S b = a; b[i / 8] ^= 1 << (i % 8); b[j / 8] ^= 1 << (j % 8); if (i == j) b[i / 8] ^= 1 << (i % 8);
            uchar *x = (uchar *)exact(a), *y = (uchar *)exact(b); int d = VGBriefExtractor::distance_of(no, x, y), e = ham(a, b), d2 = VGBriefExtractor::distance_of(no, y, x); step();
            if (d != e || d2 != e) fail("distance of %d octets differing in bits %d %d is %d, expected %d", no, i, j, d, e); free(x); free(y);
        }
        S a(no, 0), b(no, (char)0xff); for (int q = 0; q < i; ++q) b[q / 8] &= ~(1 << (q % 8)); if (VGBriefExtractor::distance_of(no, (uchar *)a.data(), (uchar *)b.data()) != no * 8 - i) fail("distance of complementary descriptors with %d equal bits", i);
        state(mix(no, i));
    }
    // descriptor maps: all contents of up to 4 descriptors from a pool of 6, all queries from the pool
    for (int no : {8, 16, 32, 64}) {
        std::vector<S> pool; for (int q = 0; q < 6; ++q) { S a(no, 0); for (int i = 0; i < no; ++i) a[i] = (char)(q < 2 ? 0 : q < 4 ? (i & 1 ? 0xff : q) : i * 7 + q); if (q == 1) a[no - 1] = 1; pool.push_back(a); }
        for (int n = 0; n <= pick(4, 5); ++n) { int tot = 1; for (int i = 0; i < n; ++i) tot *= 6;
            for (int k = 0; k < tot; ++k) if (begin("descriptor-maps")) {
                describe([&] { return fmt("%d descriptors of %d octets #%d", n, no, k); });
                VGDescriptorMap m(no); if (k & 1) m.reserve(3); std::vector<std::pair<uint64_t, S>> r; int v = k;
                for (int i = 0; i < n; ++i, v /= 6) { uint64_t id = i == 2 ? 77 : 1000000007ull * (i + 1) + (1ull << 40); uchar *x = (uchar *)exact(pool[v % 6]); int sz = m.add(id, x); free(x); r.push_back({id, pool[v % 6]}); step(); if (sz != i + 1 || m.size() != i + 1) fail("adding gives size %d, expected %d", sz, i + 1); }
                for (int i = 0; i < n; ++i) if (m.get_id(i) != r[i].first || memcmp(m.get_descriptor(i), r[i].second.data(), no)) fail("descriptor %d changed", i);
                if (n) for (auto &q : pool) {
                    int best = 0; for (int i = 1; i < n; ++i) if (ham(q, r[i].second) < ham(q, r[best].second)) best = i;
                    auto s = m.search_nn((const uchar *)q.data()); step(); int cost = ham(q, r[best].second);
                    if (s.match_cost != (float)cost) { fail("nearest neighbour at distance %g, expected %d", s.match_cost, cost); continue; }
                    bool is = false; for (auto &e : r) if (e.first == s.id && ham(q, e.second) == cost) is = true;
                    if (!is) fail("nearest neighbour id %llu is not at distance %d", (unsigned long long)s.id, cost);
                }
                for (auto &e : r) { const uchar *d = m.search_by_id(e.first); step(); bool ok = false; if (d) for (auto &f : r) if (f.first == e.first) { ok = !memcmp(d, f.second.data(), no); break; } if (!ok) fail("search by id fails"); }
                if (m.search_by_id(5)) fail("found an id that was not added");
                m.clear(); if (m.size() != 0 || (n && m.search_by_id(r[0].first))) fail("cleared map is not empty"); m.set_n_octets(8); if (m.n_octets() != 8 || m.size()) fail("set_n_octets");
                state(mix(mix(no, n), k));
            } }
    }
    for (int n : sizes(pick(5000, 70000))) for (int k = 0; k < 4; ++k) if (begin("large-bit-arrays")) {
        describe([&] { return fmt("%d bits, pattern %d", n, k); });
        uint8_t *a = nx_bit_array_new(n); nx_bit_array_set_zero(n, a); std::vector<bool> m(n); auto cmp = [&](const char *w) { step(); for (int q = 0; q < n; ++q) if ((bool)nx_bit_array_get(a, q) != m[q]) { fail("%d bits, %s: bit %d is wrong", n, w, q); return; } };
        cmp("zero"); for (int i = 0; i < n; ++i) { bool on = k == 0 || (k == 1 && i % 3 == 0) || (k == 2 && i >= n - 2) || (k == 3 && (i * 2654435761u >> 13 & 1)); if (on) { nx_bit_array_set(a, i, NX_TRUE); m[i] = true; } } cmp("set"); for (int i = 0; i < n; i += 2) { nx_bit_array_set(a, i, NX_FALSE); m[i] = false; } cmp("cleared"); nx_bit_array_set_zero(n, a); m.assign(n, false); cmp("zero again"); nx_free(a); state(mix(n, k)); }
    for (int no = 8; no <= pick(1024, 8192); no += no < 264 ? 8 : 120) for (int k = 0; k < 5; ++k) if (begin("hamming-large")) {
        describe([&] { return fmt("%d octets, pattern %d", no, k); });
        S a = bytes(no, k, true), b = k == 0 ? a : k == 1 ? S(a) : bytes(no, k + 50, true); if (k == 1) for (auto &c : b) c = ~c; if (k == 2) { b = a; b[no - 1] ^= 0x80; } if (k == 3) { b = a; for (int i = no / 2; i < no; ++i) b[i] ^= 0xff; }
        uchar *x = (uchar *)exact(a), *y = (uchar *)exact(b); int d = VGBriefExtractor::distance_of(no, x, y), e = ham(a, b); step(); if (d != e) fail("distance of %d octets is %d, expected %d", no, d, e); free(x); free(y); state(mix(no, k)); }
    for (int no : {8, 32, 64, 128}) for (int n : sizes(pick(1100, 5000))) for (int k = 0; k < 3; ++k) if (begin("large-maps")) {
        describe([&] { return fmt("%d descriptors of %d octets, pattern %d", n, no, k); });
        size_t h0 = heap();
        {
            VGDescriptorMap m(no); if (k == 1) m.reserve(n); std::vector<std::pair<uint64_t, S>> r; for (int i = 0; i < n; ++i) { S t = k == 2 ? S(no, 0) : bytes(no, i, true); if (k == 2) { for (int q = 0; q < i % (no * 8); ++q) t[q / 8] |= 1 << q % 8; } uint64_t id = k == 1 ? (uint64_t)i * 0x100000001ull : (uint64_t)(n - i); if (m.add(id, (const uchar *)t.data()) != i + 1) fail("adding number %d", i); r.push_back({id, t}); }
            for (int i = 0; i < n; ++i) if (m.get_id(i) != r[i].first || memcmp(m.get_descriptor(i), r[i].second.data(), no)) { fail("descriptor %d of %d changed", i, n); break; }
            for (int i = 0; i < n; i += i > 4 && i < n - 5 ? std::max(1, n / 29) : 1) { S q = r[i].second; for (int v = 0; v < 3; ++v) { if (v == 1) q[i % no] ^= 1 << i % 8; if (v == 2) q = bytes(no, 7000 + i, true); int best = no * 8 + 1; for (auto &e : r) best = std::min(best, ham(q, e.second)); auto s = m.search_nn((const uchar *)q.data()); step(); bool is = false; for (auto &e : r) if (e.first == s.id && ham(q, e.second) == best) is = true; if (s.match_cost != (float)best || !is) fail("nearest of %d at distance %g (id %llu), expected %d", n, s.match_cost, (unsigned long long)s.id, best); }
                const uchar *d = m.search_by_id(r[i].first); if (!d || memcmp(d, r[i].second.data(), no)) fail("id %llu of %d is not found", (unsigned long long)r[i].first, n); }
            for (uint64_t id : {(uint64_t)n + 1, (uint64_t)1 << 63, ~(uint64_t)0, (uint64_t)(n * 0x100000001ull)}) if (m.search_by_id(id)) fail("found an id that was not added"); state(mix(mix(n, no), k));
        }
        if (heap() != h0) fail("maps leak"); }
}

// ------------------------------------------------------------------ P31
static void p31() {
    words("lines", S("a\0\n", 3), pick(9, 11), [](const S &t) {
        describe([&] { return "lines of " + esc(t); });
        for (size_t pre : {(size_t)0, (size_t)1, (size_t)4}) {
            FILE *f = t.empty() ? fopen("/dev/null", "r") : fmemopen((void *)t.data(), t.size(), "r");
            char *l = pre ? (char *)nx_xmalloc(pre) : nullptr; size_t n = pre; size_t at = 0;
            while (at < t.size()) {
                size_t e = t.find('\n', at); e = e == S::npos ? t.size() : e + 1; S x = t.substr(at, e - at);
                ssize_t r = nx_getline(&l, &n, f); step();
                if (r != (ssize_t)x.size() || S(l, r < 0 ? 0 : r) != x || l[x.size()] != 0 || n < x.size() + 1) { fail("line at %d of '%s': %d bytes", (int)at, esc(t).c_str(), (int)r); break; }
                at = e;
            }
            if (at >= t.size()) { ssize_t r = nx_getline(&l, &n, f); step(); if (r > 0) fail("a line after the end"); }
            nx_free(l); fclose(f); }
        state(t); });
    for (int len = 0; len <= pick(1200, 6000); ++len) if (begin("line-lengths")) {
        S t(len, 'q'); for (int i = 0; i < len; ++i) t[i] = (char)(i % 256 == '\n' ? 'n' : 255 - i % 256 == '\n' ? 'm' : len % 2 ? i % 256 : 255 - i % 256); S u = t + "\nnext";
        FILE *f = fmemopen((void *)u.data(), u.size(), "r"); char *l = nullptr; size_t n = 0; ssize_t r = nx_getline(&l, &n, f); step();
        if (r != len + 1 || memcmp(l, u.data(), len + 1) || l[len + 1]) fail("line of %d bytes read as %d", len, (int)r);
        r = nx_getline(&l, &n, f); if (r != 4 || S("next") != l) fail("line after one of %d bytes", len);
        nx_free(l); fclose(f); state(len); }
    // directories
    S d = tmpfile("dir"); mkdir(d.c_str(), 0700); static const char *N[] = {"b", "a.txt", ".hidden", "Z", "10", "sub", "a b"};
    for (int mask = 0; mask < 128; ++mask) if (begin("directories")) {
        describe([&] { return fmt("directory contents %d", mask); });
        std::vector<S> e{".", ".."};
        for (int i = 0; i < 7; ++i) if (mask >> i & 1) { S p = d + "/" + N[i]; if (i == 5) mkdir(p.c_str(), 0700); else write_file(p, "x"); e.push_back(N[i]); }
        std::sort(e.begin(), e.end());
        NXStringArray *sa = nx_scan_dir(d.c_str()); step(); std::vector<S> g; for (int i = 0; i < nx_string_array_size(sa); ++i) g.push_back(nx_string_array_get(sa, i));
        if (g != e) { S s; for (auto &x : g) s += x + " "; fail("directory listing: %s", s.c_str()); }
        nx_string_array_free(sa);
        for (int i = 0; i < 7; ++i) { S p = d + "/" + N[i]; bool is = mask >> i & 1; step(2); if ((bool)nx_check_dir(p.c_str()) != (is && i == 5)) fail("check_dir of %s", N[i]); if ((bool)nx_check_file(p.c_str()) != is) fail("check_file of %s", N[i]); }
        S sub = d + "/sub";
        if (!guarded([&] { nx_ensure_dir(sub.c_str()); }) || !nx_check_dir(sub.c_str())) fail("ensure_dir"); struct stat sb; if (stat(sub.c_str(), &sb) || !S_ISDIR(sb.st_mode)) fail("ensured directory is missing"); else if ((sb.st_mode & 0700) != 0700) fail("the ensured directory is of no use to its owner (mode %o)", (unsigned)sb.st_mode & 0777);
        if (mask & 1) { S fb = d + "/b"; if (guarded([&] { nx_ensure_dir(fb.c_str()); })) fail("a file in place of the directory goes unnoticed"); }
        S deep = d + "/no/deep"; if (guarded([&] { nx_ensure_dir(deep.c_str()); })) fail("creating a directory under a missing one goes unnoticed"); S miss = d + "/none"; if (guarded([&] { nx_scan_dir(miss.c_str()); })) fail("scanning a missing directory goes unnoticed");
        if (guarded([&] { nx_xfopen((d + "/none/x").c_str(), "r"); })) fail("opening a missing file goes unnoticed"); if (nx_fopen((d + "/none/x").c_str(), "r")) fail("opening a missing file succeeds");
        for (int i = 0; i < 7; ++i) { S p = d + "/" + N[i]; remove(p.c_str()); }
        state(mask);
    }
    for (int len : sizes(pick(140000, 3000000))) for (int k = 0; k < 4; ++k) if (begin("long-lines")) { // alone, after short ones, twice, without an end
        S t = bytes(len, k); for (auto &c : t) if (c == '\n') c = 'n'; std::vector<S> L; if (k == 0) L = {t + "\n"}; if (k == 1) L = {"a\n", "\n", t + "\n", "b\n"}; if (k == 2) L = {t + "\n", t + "x\n", t}; if (k == 3) L = {"short\n", t}; S all; for (auto &x : L) all += x; S p = tmpfile("lines"); write_file(p, all);
        FILE *f = fopen(p.c_str(), "r"); char *l = nullptr; size_t n = 0; for (auto &x : L) { ssize_t r = nx_getline(&l, &n, f); step(); if (r != (ssize_t)x.size() || memcmp(l, x.data(), x.size()) || l[x.size()] || n <= x.size()) { fail("line of %d bytes read as %d (way %d)", (int)x.size(), (int)r, k); break; } } if (nx_getline(&l, &n, f) > 0) fail("a line after the end"); nx_free(l); fclose(f); state(mix(len, k)); }
    for (int cnt : sizes(pick(3000, 30000))) if (begin("many-lines")) { S all; for (int i = 0; i < cnt; ++i) all += S(i * 7 % 83, 'a' + i % 26) + "\n"; FILE *f = fmemopen((void *)all.data(), all.size(), "r"); char *l = nullptr; size_t n = 0; for (int i = 0; i < cnt; ++i) { S x = S(i * 7 % 83, 'a' + i % 26) + "\n"; ssize_t r = nx_getline(&l, &n, f); step(); if (r != (ssize_t)x.size() || x != l) { fail("line %d of %d", i, cnt); break; } } if (nx_getline(&l, &n, f) > 0) fail("a line after the end"); nx_free(l); fclose(f); state(cnt); }
    for (int cnt : {1, 2, 9, 30, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300}) for (int k = 0; k < 3; ++k) if (begin("large-directories")) {
        describe([&] { return fmt("%d entries, names of kind %d", cnt, k); });
        S dd = tmpfile("ldir"); mkdir(dd.c_str(), 0700); std::vector<S> e{".", ".."}; for (int i = 0; i < cnt; ++i) { S nm = k == 0 ? fmt("%d", i * 7919 % 1000003) : k == 1 ? fmt("%c%d", "aAbBzZ_.-"[i % 9], i) : fmt("%04d", i) + S(251 - i % 13, 'n'); write_file(dd + "/" + nm, ""); e.push_back(nm); }
        size_t h0 = heap(); { NXStringArray *sa = nx_scan_dir(dd.c_str()); step(); std::sort(e.begin(), e.end()); bool ok = nx_string_array_size(sa) == (int)e.size(); for (int i = 0; ok && i < (int)e.size(); ++i) ok = e[i] == nx_string_array_get(sa, i); if (!ok) fail("listing of %d entries, kind %d (%d listed)", cnt, k, nx_string_array_size(sa)); nx_string_array_free(sa); }
        if (heap() != h0) fail("listing leaks"); for (size_t i = 2; i < e.size(); ++i) if (e[i] != "." && e[i] != "..") { S p = dd + "/" + e[i]; if (i % 37 == 2 && (!nx_check_file(p.c_str()) || nx_check_dir(p.c_str()))) fail("existing file %s", e[i].c_str()); remove(p.c_str()); } for (auto &x : e) if (x != "." && x != "..") remove((dd + "/" + x).c_str()); rmdir(dd.c_str()); state(mix(cnt, k)); }
    for (int n : sizes(pick(9000, 100000))) for (int sz : {1, 2, 8, 12}) if (begin("xfread-large")) { S t = bytes(n * sz, sz, true); FILE *f = fmemopen((void *)t.data(), t.size(), "r"); char *b = exact(S(n * sz, 0)); if (!guarded([&] { nx_xfread(b, sz, n, f); }) || memcmp(b, t.data(), t.size())) fail("reading %d items of %d", n, sz); rewind(f); fgetc(f); if (guarded([&] { nx_xfread(b, sz, n, f); })) fail("short read of %d items of %d goes unnoticed", n, sz); fclose(f); S w = cap([&](FILE *g) { if (!guarded([&] { nx_xfwrite(t.data(), sz, n, g); })) fail("writing"); }); if (w != t) fail("wrote %d items of %d differently", n, sz); free(b); step(3); state(mix(n, sz)); }
    // streams that fail after every number of bytes, with and without buffering, and when closed
    struct Sink { long room; S got; bool closefail, once = false; };
    auto sink = [](Sink *k, int buf) {
        cookie_io_functions_t io = {}; io.write = [](void *c, const char *b, size_t n) -> ssize_t { Sink *k = (Sink *)c; long m = std::min<long>(k->room, n); if (m <= 0 && n) { errno = ENOSPC; if (k->once) k->room = 1000000; return 0; } k->got.append(b, m); k->room -= m; return m; };
        io.close = [](void *c) -> int { if (((Sink *)c)->closefail) { errno = EIO; return EOF; } return 0; };
        FILE *f = fopencookie(k, "w", io); if (!buf) setvbuf(f, nullptr, _IONBF, 0); return f; };
    for (int sz : {1, 2, 3, 8}) for (int n = 0; n <= 12; ++n) for (int room = 0; room <= n * sz; ++room) for (int way = 0; way < 8; ++way) if (begin("failing-writes")) {
        int buf = way & 1, cf = way >> 1 & 1, fat = way >> 2; describe([&] { return fmt("%d items of %d bytes with room for %d, buffered %d, closing fails %d, fatal %d", n, sz, room, buf, cf, fat); });
        S t = bytes(n * sz, n, true); Sink k{room, "", (bool)cf}; FILE *f = sink(&k, buf); bool w = guarded([&] { nx_xfwrite(t.data(), sz, n, f); }); step();
        if (!buf && w != (room == n * sz)) fail("writing %d items of %d bytes with room for %d %s", n, sz, room, w ? "succeeds" : "fails"); if (buf && !w) fail("a buffered write of %d bytes fails", n * sz);
        bool ok = fat ? guarded([&] { nx_xfclose(f, "sink"); }) : nx_fclose(f, "sink") == NX_OK; step();
        if (ok != (room == n * sz && !cf)) fail("closing a stream with room for %d of %d bytes, %s, %s", room, n * sz, cf ? "close failing" : "closing", ok ? "succeeds" : "fails");
        if (k.got != t.substr(0, room)) fail("%d of %d bytes arrive changed", room, n * sz); state(mix(mix(sz, n), room * 8 + way)); }
    words("failing-text", "a\"\\\n\t\r\b\f", pick(4, 5), [&](const S &t) {
        describe([&] { return "writing " + esc(t) + " to a failing stream"; });
        for (int q = 0; q < 2; ++q) {
            auto put = [&](FILE *f) { return q ? nx_fputs_double_quoted(t.c_str(), f) : nx_fputs_readable(t.c_str(), f); };
            S all = cap([&](FILE *f) { if (put(f)) fail("writing %s fails", esc(t).c_str()); });
            for (int room = 0; room <= (int)all.size(); ++room) for (int once = 0; once < 2; ++once) { Sink k{room, "", false, (bool)once}; FILE *f = sink(&k, 0); int r = put(f); step(); if ((r == 0) != (room == (int)all.size())) fail("writing %s with room for %d of %d bytes returns %d", esc(t).c_str(), room, (int)all.size(), r); fclose(f); } }
        state(t); });
    for (int room = 0; room <= 4; ++room) if (begin("failing-null")) { Sink k{room, "", false}; FILE *f = sink(&k, 0); int r = nx_fputs_readable(nullptr, f); step(); if ((r == 0) != (room == 4)) fail("writing no string with room for %d returns %d", room, r); fclose(f); state(room); }
    for (int k = 0; k < 3; ++k) if (begin("temporary")) { FILE *f = nullptr, *g = nullptr; if (!guarded([&] { f = nx_xtmpfile(); g = nx_xtmpfile(); }) || !f || !g) fail("no temporary file"); else { S t = bytes(k * 5000, k, true), u(t.size(), 0); nx_xfwrite(t.data(), 1, t.size(), f); rewind(f); if (fread(&u[0], 1, u.size() + 1, f) != t.size() || u != t) fail("temporary file of %d bytes", k * 5000); if (fgetc(g) != EOF) fail("temporary files share their contents"); fclose(f); fclose(g); } step(2); state(k); }
    for (int n = 0; n <= 40; ++n) for (int want = 0; want <= 44; ++want) if (begin("xfread")) { // short reads are fatal
        S t(n + 1, 'x'); FILE *f = fmemopen((void *)t.data(), n + 1, "r"); fgetc(f); char b[64]; bool ok = guarded([&] { nx_xfread(b, 1, want, f); }); step(); if (ok != (want <= n)) fail("reading %d of %d bytes %s", want, n, ok ? "succeeds" : "fails"); fclose(f); state(mix(n, want)); }
}
void mc_run() {
    S p = PROP;
    if (p == "P09") p09(); else if (p == "P10") p10(); else if (p == "P11") p11(); else if (p == "P12") p12(); else if (p == "P13") p13(); else p31();
}
