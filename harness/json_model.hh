// Reference JSON values, a strict reader, and comparison with the library's trees.
#pragma once
#include "mc.hh"
extern "C" {
#include "virg/nexus/nx_json_tree.h"
#include "virg/nexus/nx_alloc.h"
}
struct J { int type = 0; std::string text; std::vector<J> kids; std::vector<std::string> names; };
inline J jleaf(int t, const std::string &s = "") { J j; j.type = t; j.text = s; return j; }
inline bool is_text(int t) { return t & (NX_JNT_STRING | NX_JNT_INTEGER | NX_JNT_FPNUMBER); }
inline bool jeq(const J &a, const J &b) {
    if (a.type != b.type || (is_text(a.type) && a.text != b.text) || a.kids.size() != b.kids.size() || a.names != b.names) return false;
    for (size_t i = 0; i < a.kids.size(); ++i) if (!jeq(a.kids[i], b.kids[i])) return false;
    return true;
}
inline uint64_t jhash(const J &a) {
    uint64_t h = mc::mix(a.type, mc::hash(a.text));
    for (auto &n : a.names) h = mc::mix(h, mc::hash(n));
    for (auto &k : a.kids) h = mc::mix(h, jhash(k));
    return h;
}
inline std::string jshow(const J &a) {
    switch (a.type) {
    case NX_JNT_TRUE: return "true"; case NX_JNT_FALSE: return "false"; case NX_JNT_NULL: return "null";
    case NX_JNT_STRING: return "\"" + mc::esc(a.text) + "\"";
    case NX_JNT_ARRAY: { std::string s = "["; for (auto &k : a.kids) s += jshow(k) + ","; return s + "]"; }
    case NX_JNT_OBJECT: { std::string s = "{"; for (size_t i = 0; i < a.kids.size(); ++i) s += mc::esc(a.names[i]) + ":" + jshow(a.kids[i]) + ","; return s + "}"; }
    default: return a.text;
    }
}
// ---- reader: 1 valid, 0 invalid, -1 not specified (text after the document)
struct JReader {
    const std::string &t; size_t p = 0; bool unspec = false;
    explicit JReader(const std::string &s) : t(s) {}
    int c() const { return p < t.size() ? (unsigned char)t[p] : -1; }
    void ws() { while (c() == ' ' || c() == '\n' || c() == '\r' || c() == '\t') ++p; }
    static bool dig(int c) { return c >= '0' && c <= '9'; }
    bool str(std::string &o) {
        if (c() != '"') return false;
        ++p; o.clear();
        for (;;) {
            int x = c();
            if (x < 0) return false;
            ++p;
            if (x == '"') return true;
            if (x == '\\') {
                int e = c(); ++p;
                switch (e) {
                case '"': o += '"'; break; case '\\': o += '\\'; break; case '/': o += '/'; break;
                case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'n': o += '\n'; break;
                case 'r': o += '\r'; break; case 't': o += '\t'; break;
                case 'u': unspec = true; return false;
                default: return false;
                }
            } else o += (char)x;
        }
    }
    bool lit(const char *s) { size_t n = strlen(s); if (t.compare(p, n, s)) return false; p += n; return true; }
    bool value(J &j) {
        ws();
        int x = c();
        if (x == '[' || x == '{') return comp(j);
        if (x == '"') { j.type = NX_JNT_STRING; return str(j.text); }
        if (x == 't') { j.type = NX_JNT_TRUE; return lit("true"); }
        if (x == 'f') { j.type = NX_JNT_FALSE; return lit("false"); }
        if (x == 'n') { j.type = NX_JNT_NULL; return lit("null"); }
        if (x == '-' || dig(x)) {
            size_t b = p; bool fp = false;
            if (c() == '-') ++p;
            if (!dig(c())) return false;
            if (c() == '0') { ++p; if (dig(c())) return false; } else while (dig(c())) ++p;
            if (c() == '.') { fp = true; ++p; if (!dig(c())) return false; while (dig(c())) ++p; }
            if (c() == 'e' || c() == 'E') { fp = true; ++p; if (c() == '+' || c() == '-') ++p; if (!dig(c())) return false; while (dig(c())) ++p; }
            j.type = fp ? NX_JNT_FPNUMBER : NX_JNT_INTEGER; j.text = t.substr(b, p - b);
            return true;
        }
        return false;
    }
    bool comp(J &j) {
        bool obj = c() == '{'; char close = obj ? '}' : ']';
        j.type = obj ? NX_JNT_OBJECT : NX_JNT_ARRAY; ++p; ws();
        if (c() == close) { ++p; return true; }
        for (;;) {
            if (obj) { std::string n; ws(); if (!str(n)) return false; j.names.push_back(n); ws(); if (c() != ':') return false; ++p; }
            j.kids.emplace_back();
            if (!value(j.kids.back())) return false;
            ws();
            if (c() == ',') { ++p; continue; }
            if (c() == close) { ++p; return true; }
            return false;
        }
    }
    int doc(J &j) {
        ws();
        if (c() != '[' && c() != '{') return 0;
        bool ok = comp(j);
        if (unspec) return -1;
        if (!ok) return 0;
        ws();
        return c() < 0 ? 1 : 0;
    }
};
static const int JALL = 255;
static const int JMASKS[] = {1, 2, 4, 8, 16, 32, 64, 128, NX_JNT_NUMBER, NX_JNT_BOOL, NX_JNT_COMPOSITE, NX_JNT_INTEGRAL, NX_JNT_VALUE, NX_JNT_VALUE | NX_JNT_NULL, JALL};
// "" when the tree equals the model (through the public accessors)
inline std::string jdiff(const J &m, NXJSONNode *n, bool masks = true) {
    using mc::fmt;
    mc::step();
    if (!n) return "no node where " + jshow(m) + " is expected";
    if (nx_json_node_type(n) != m.type) return fmt("node type %d, expected %d for ", nx_json_node_type(n), m.type) + jshow(m);
    for (int mk : JMASKS) if (!nx_json_node_is_a(n, mk) != !(m.type & mk) || !nx_json_node_is(n, mk) != (m.type != mk)) return fmt("node of type %d answers wrongly whether it is %d", m.type, mk);
    if (is_text(m.type) && (!nx_json_node_text(n) || m.text != nx_json_node_text(n)))
        return fmt("node text '%s', expected '%s'", nx_json_node_text(n) ? mc::esc(nx_json_node_text(n)).c_str() : "(none)", mc::esc(m.text).c_str());
    if (m.type == NX_JNT_ARRAY) {
        int k = m.kids.size();
        if (nx_json_node_n_children(n) != k) return fmt("array has %d elements, expected %d", nx_json_node_n_children(n), k);
        if (nx_json_array_get(n, k, JALL) || nx_json_array_get(n, k + 1, JALL)) return fmt("array of %d has an element past its end", k);
        if (nx_json_object_get(n, "a", JALL)) return "array answers to a member name";
        for (int i = 0; i < k; ++i) {
            if (masks) for (int mk : JMASKS) {
                bool want = (m.kids[i].type & mk) != 0, got = nx_json_array_get(n, i, mk) != nullptr;
                if (want != got) return fmt("element %d of type %d %s a request for types %d", i, m.kids[i].type, got ? "matches" : "does not match", mk);
            }
            std::string d = jdiff(m.kids[i], nx_json_array_get(n, i, JALL), masks);
            if (!d.empty()) return fmt("[%d] ", i) + d;
        }
    } else if (m.type == NX_JNT_OBJECT) {
        if (nx_json_object_get(n, "no such name", JALL)) return "object answers to a missing name";
        if (nx_json_array_get(n, 0, JALL)) return "object answers to a position";
        for (size_t i = 0; i < m.kids.size(); ++i) {
            size_t f = 0; while (m.names[f] != m.names[i]) ++f; // first member of that name
            const char *nm = m.names[i].c_str();
            if (masks) for (int mk : JMASKS) {
                bool want = (m.kids[f].type & mk) != 0, got = nx_json_object_get(n, nm, mk) != nullptr;
                if (want != got) return fmt("member '%s' of type %d %s a request for types %d", nm, m.kids[f].type, got ? "matches" : "does not match", mk);
            }
            std::string d = jdiff(m.kids[f], nx_json_object_get(n, nm, JALL), masks);
            if (!d.empty()) return fmt("{%s} ", nm) + d;
        }
    }
    return "";
}
inline NXJSONNode *jbuild(const J &m) {
    switch (m.type) {
    case NX_JNT_STRING: return nx_json_node_new_string(m.text.c_str());
    case NX_JNT_INTEGER: return nx_json_node_new_integer(m.text.c_str());
    case NX_JNT_FPNUMBER: return nx_json_node_new_fpnumber(m.text.c_str());
    case NX_JNT_TRUE: return nx_json_node_new_true();
    case NX_JNT_FALSE: return nx_json_node_new_false();
    case NX_JNT_NULL: return nx_json_node_new_null();
    case NX_JNT_ARRAY: { NXJSONNode *a = nx_json_node_new_array(); for (auto &k : m.kids) nx_json_array_add(a, jbuild(k)); return a; }
    default: {
        NXJSONNode *a = nx_json_node_new_object();
        for (size_t i = 0; i < m.kids.size(); ++i) nx_json_object_add(a, m.names[i].c_str(), jbuild(m.kids[i]));
        return a; }
    }
}
// same tree, every composite attached to its parent before it is filled
inline void jfill(const J &m, NXJSONNode *n) {
    for (size_t i = 0; i < m.kids.size(); ++i) {
        const J &k = m.kids[i];
        NXJSONNode *c = k.type == NX_JNT_ARRAY ? nx_json_node_new_array() : k.type == NX_JNT_OBJECT ? nx_json_node_new_object() : jbuild(k);
        if (m.type == NX_JNT_ARRAY) nx_json_array_add(n, c); else nx_json_object_add(n, m.names[i].c_str(), c);
        if (k.type & NX_JNT_COMPOSITE) jfill(k, c);
    }
}
inline std::string jprint(NXJSONNode *n, int level) {
    char *b = nullptr; size_t l = 0; FILE *f = open_memstream(&b, &l);
    nx_json_tree_fprint(f, n, level);
    fclose(f); std::string s(b, l); free(b); return s;
}
inline NXJSONNode *jparse(const std::string &t, bool stream, bool &ok) {
    NXJSONNode *n = nullptr;
    if (stream) {
        FILE *f = fmemopen((void *)t.data(), t.size(), "r");
        ok = mc::guarded([&] { n = nx_json_tree_from_stream(f); });
        fclose(f);
    } else {
        char *b = (char *)malloc(t.size() + 1); memcpy(b, t.c_str(), t.size() + 1);
        ok = mc::guarded([&] { n = nx_json_tree_from_string(b); });
        free(b);
    }
    return n;
}
