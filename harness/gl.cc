// P41 OpenGL helpers against a model driver: every answer the driver can give, every short history of buffer operations.
#include "mc.hh"
#include <cmath>
#include <set>
#include <GLES3/gl32.h>
#include "virg/nexus/GL/nx_gl.h"
#include "virg/nexus/GL/nx_gl_buffer.h"
#include "virg/nexus/GL/nx_gl_program.h"
#include "virg/nexus/GL/nx_gl_projection.h"
#include "virg/nexus/GL/nx_gl_shader.h"
using namespace mc;
typedef std::string S;

// ------------------------------------------------------------- model driver
struct Buf { bool stored = false; GLenum target = 0, usage = 0; S data; };
struct Shd { GLenum type = 0; S src; bool compiled = false; S compiled_src; };
struct Prg { std::multiset<GLuint> att; bool linked = false; std::multiset<GLuint> linked_att; bool validated = false; };
struct Driver {
    GLuint next = 1; bool gen_fails = false, create_fails = false; GLint status = GL_TRUE; int log_len = 0; S log; int bad = 0; S why;
    std::map<GLuint, Buf> bufs; std::map<GLenum, GLuint> bound; std::map<GLuint, Shd> shds; std::map<GLuint, Prg> prgs;
    bool debug_on = false; GLDEBUGPROC cb = nullptr; const void *cb_user = nullptr; S version, sl;
    void err(const char *w) { ++bad; if (why.empty()) why = w; }
};
static Driver *D;
extern "C" {
void glGenBuffers(GLsizei n, GLuint *b) { for (int i = 0; i < n; ++i) { b[i] = D->gen_fails ? 0 : D->next++; if (b[i]) D->bufs[b[i]]; } }
void glDeleteBuffers(GLsizei n, const GLuint *b) { for (int i = 0; i < n; ++i) if (b[i]) { if (!D->bufs.erase(b[i])) D->err("a buffer that does not exist is deleted"); for (auto &p : D->bound) if (p.second == b[i]) p.second = 0; } }
void glBindBuffer(GLenum t, GLuint b) { if (b && !D->bufs.count(b)) D->err("a buffer that does not exist is bound"); D->bound[t] = b; }
void glBufferData(GLenum t, GLsizeiptr n, const void *d, GLenum u) { GLuint id = D->bound.count(t) ? D->bound[t] : 0; if (!id) { D->err("data without a bound buffer"); return; } Buf &b = D->bufs[id]; b.stored = true; b.target = t; b.usage = u; b.data.assign((const char *)d, d ? n : 0); }
GLuint glCreateShader(GLenum t) { if (D->create_fails) return 0; GLuint id = D->next++; D->shds[id].type = t; return id; }
void glShaderSource(GLuint s, GLsizei n, const GLchar *const *str, const GLint *len) { if (!D->shds.count(s)) { D->err("source of a shader that does not exist"); return; } S t; for (int i = 0; i < n; ++i) { if (len && len[i] >= 0) t.append(str[i], len[i]); else t += str[i]; } D->shds[s].src = t; }
void glCompileShader(GLuint s) { if (!D->shds.count(s)) { D->err("a shader that does not exist is compiled"); return; } D->shds[s].compiled = true; D->shds[s].compiled_src = D->shds[s].src; }
static void give(GLint *p, GLenum what, GLenum stat) { if (what == stat) *p = D->status; else if (what == GL_INFO_LOG_LENGTH) *p = D->log_len; else D->err("unexpected query"); }
void glGetShaderiv(GLuint s, GLenum w, GLint *p) { if (!D->shds.count(s)) D->err("query of a shader that does not exist"); else if (w == GL_COMPILE_STATUS && !D->shds[s].compiled) { D->err("status before compilation"); *p = 0; } else give(p, w, GL_COMPILE_STATUS); }
static void give_log(GLsizei n, GLsizei *l, GLchar *b) { if (n <= 0) { if (l) *l = 0; return; } size_t k = std::min((size_t)n - 1, D->log.size()); memcpy(b, D->log.data(), k); b[k] = 0; if (l) *l = (GLsizei)k; }
void glGetShaderInfoLog(GLuint s, GLsizei n, GLsizei *l, GLchar *b) { if (!D->shds.count(s)) D->err("log of a shader that does not exist"); give_log(n, l, b); }
GLuint glCreateProgram(void) { if (D->create_fails) return 0; GLuint id = D->next++; D->prgs[id]; return id; }
void glAttachShader(GLuint p, GLuint s) { if (!D->prgs.count(p)) { D->err("attaching to a program that does not exist"); return; } D->prgs[p].att.insert(s); }
void glDetachShader(GLuint p, GLuint s) { if (D->prgs.count(p)) D->prgs[p].att.erase(s); }
void glDeleteShader(GLuint s) { D->shds.erase(s); }
void glDeleteProgram(GLuint s) { D->prgs.erase(s); }
void glLinkProgram(GLuint p) { if (!D->prgs.count(p)) { D->err("linking a program that does not exist"); return; } D->prgs[p].linked = true; D->prgs[p].linked_att = D->prgs[p].att; }
void glValidateProgram(GLuint p) { if (!D->prgs.count(p)) { D->err("validating a program that does not exist"); return; } D->prgs[p].validated = true; }
void glGetProgramiv(GLuint p, GLenum w, GLint *v) { if (!D->prgs.count(p)) D->err("query of a program that does not exist"); else if (w == GL_VALIDATE_STATUS) { if (!D->prgs[p].validated) D->err("status before validation"); *v = D->status; } else if (w == GL_LINK_STATUS && !D->prgs[p].linked) { D->err("status before linking"); *v = 0; } else give(v, w, GL_LINK_STATUS); }
void glGetProgramInfoLog(GLuint p, GLsizei n, GLsizei *l, GLchar *b) { if (!D->prgs.count(p)) D->err("log of a program that does not exist"); give_log(n, l, b); }
const GLubyte *glGetString(GLenum w) { return (const GLubyte *)(w == GL_VERSION ? D->version.c_str() : w == GL_SHADING_LANGUAGE_VERSION ? D->sl.c_str() : "?"); }
void glEnable(GLenum c) { if (c == GL_DEBUG_OUTPUT) D->debug_on = true; }
void glDisable(GLenum c) { if (c == GL_DEBUG_OUTPUT) D->debug_on = false; }
void glDebugMessageCallback(GLDEBUGPROC f, const void *u) { D->cb = f; D->cb_user = u; }

// log lines of the library, as they are asked for
struct Line { int level; char tag[32]; S msg; }; static std::vector<Line> *lines;
void __wrap_nx_log_formatted(enum NXLogLevel lv, const char *, int, const char *tag, const char *msg, ...) { va_list a; va_start(a, msg); char *b = nullptr; if (vasprintf(&b, msg, a) < 0) b = nullptr; va_end(a); if (lines) { Line l; l.level = lv; snprintf(l.tag, sizeof l.tag, "%s", tag); l.msg = b ? b : ""; lines->push_back(l); } free(b); }
static char fatal_text[1 << 16]; static bool fatal_cut;
__attribute__((noreturn)) static void hook(const char *fn, int line, const char *tag, const char *msg, va_list ap) { va_list c; va_copy(c, ap); int n = vsnprintf(fatal_text, sizeof fatal_text, msg, c); va_end(c); fatal_cut = n >= (int)sizeof fatal_text; mc_fatal_hook(fn, line, tag, msg, ap); abort(); }
}
static bool has(const S &a, const S &b) { return a.find(b) != S::npos; }

static void shaders() {
    static const char *SRC[] = {"", "void main() {}", "x", "#version 300 es\nvoid main() { gl_Position = vec4(0.0); }\n", "%s%n%d \\ \" \xc3\xa9"};
    S big; for (int i = 0; i < 20000; ++i) big += (char)('!' + i % 90);
    static const GLenum T[] = {GL_VERTEX_SHADER, GL_FRAGMENT_SHADER, GL_GEOMETRY_SHADER, GL_COMPUTE_SHADER};
    static const GLuint FIRST[] = {1, 2, 7, 0xfffffff0u};
    for (int what = 0; what < 3; ++what) // compile, link, validate
    for (int t = 0; t < (what ? 2 : 4); ++t) for (int s = 0; s < (what ? 3 : 6); ++s) for (GLuint first : FIRST)
    for (int outcome = 0; outcome < 3; ++outcome) for (int ll = 0; ll < (outcome == 2 ? pick(70, 400) : 2); ++ll) for (int shorter = 0; shorter < (outcome == 2 ? 3 : 1); ++shorter) if (begin(what == 0 ? "shaders" : what == 1 ? "programs" : "validation")) {
        if (what == 2 && outcome == 0) continue;
        Driver drv; D = &drv; drv.next = first; drv.create_fails = outcome == 0; drv.status = outcome == 1 ? GL_TRUE : GL_FALSE;
        int len = ll < 60 ? ll : ll == 60 ? 1000 : ll == 61 ? 4096 : ll == 62 ? 65 : ll == 63 ? 20001 : 100 + ll * 7;
        S full; for (int i = 0; i + 1 < len; ++i) full += i % 13 == 12 ? '\n' : i % 17 == 5 ? '%' : (char)('a' + i % 26);
        if (shorter == 1 && full.size() > 1) full.resize(full.size() / 2); if (shorter == 2) full = "";
        drv.log_len = len; drv.log = full; // the driver may report more than it writes
        S src = s < 5 ? SRC[s] : big; GLenum type = T[t]; GLuint got = 0, vs = 0, fs = 0;
        describe([&] { return fmt("%s, type %d, source %d, first id %u, %s, log of %d (%d written)", what == 0 ? "compile" : what == 1 ? "link" : "validate", t, s, first, outcome == 0 ? "no object" : outcome == 1 ? "success" : "failure", len, (int)full.size()); });
        std::vector<Line> ln; lines = &ln; bool ok = false; GLuint pre = 0;
        if (what == 0) { char *e = strdup(src.c_str()); ok = guarded([&] { got = nx_gl_shader_xcreate_and_compile(type, e); }); memset(e, 'Q', strlen(e)); free(e); }
        else { drv.shds[vs = 900 + s].type = GL_VERTEX_SHADER; drv.shds[fs = t ? 900 + s + 1 : 5].type = GL_FRAGMENT_SHADER;
            if (what == 1) ok = guarded([&] { got = nx_gl_program_xcreate_and_link(vs, fs); });
            else { pre = drv.next++; drv.prgs[pre].att = {vs, fs}; drv.prgs[pre].linked = true; ok = guarded([&] { nx_gl_program_xvalidate(pre); }); } }
        lines = nullptr; step();
        if (drv.bad) fail("%s", drv.why.c_str());
        if (ok != (outcome == 1)) fail("%s", ok ? "failure not reported" : "success reported as fatal error");
        else if (!ok && fatal_kind != 1) fail("the process exits");
        else if (ok) {
            if (what == 0) { if (!drv.shds.count(got)) fail("returns %u, not a shader", got); else { Shd &h = drv.shds[got]; if (h.type != type) fail("shader of another type"); if (!h.compiled || h.compiled_src != src) fail("compiled \"%s\"", esc(h.compiled_src.substr(0, 100)).c_str()); } if (drv.shds.size() != 1) fail("%d shaders exist", (int)drv.shds.size()); }
            else if (what == 1) { if (!drv.prgs.count(got)) fail("returns %u, not a program", got); else { Prg &p = drv.prgs[got]; if (!p.linked || p.linked_att != std::multiset<GLuint>{vs, fs}) fail("linked with %d shaders", (int)p.linked_att.size()); } if (drv.prgs.size() != 1) fail("%d programs exist", (int)drv.prgs.size()); }
            else if (!drv.prgs[pre].validated) fail("not validated");
            for (auto &l : ln) if (l.level >= NX_LOG_WARNING) fail("success logs \"%s\"", l.msg.c_str());
        } else {
            S tn = type == GL_VERTEX_SHADER ? "vertex shader" : type == GL_FRAGMENT_SHADER ? "fragment shader" : "unknown shader", ft = fatal_text;
            if (what == 0 && !has(ft, tn)) fail("fatal error does not name the %s: %s", tn.c_str(), esc(ft.substr(0, 80)).c_str());
            if (outcome == 2) { S w = full.substr(0, len > 1 ? len - 1 : 0); if (!has(ft, w)) fail("fatal error lacks the driver's log of %d: %s", (int)w.size(), esc(ft.substr(0, 200)).c_str()); if (ft.size() < w.size() || ft.substr(ft.size() - w.size()) != w) fail("fatal error does not end with the driver's log"); }
        }
        state(mix(mix(what * 10 + t, s * 3 + outcome), len * 4 + shorter)); D = nullptr;
    }
    for (GLenum e = 0; e < 0x10000; e += 64) if (begin("type-names")) { for (GLenum k = e; k < e + 64; ++k) { S w = nx_shader_type_string(k), x = k == GL_VERTEX_SHADER ? "vertex shader" : k == GL_FRAGMENT_SHADER ? "fragment shader" : "unknown shader"; step(); if (w != x) fail("type %u is \"%s\"", k, w.c_str()); } state(e); }
}

static void buffers() {
    // two handles; every history of operations
    enum { ALLOC0, ALLOC1, NEWA0, NEWA1, NEWE0, NEWE1, GEN0, GEN1, BIND0, BIND1, FREE0, FREE1, NOP };
    static const GLenum USE[] = {GL_STATIC_DRAW, GL_DYNAMIC_DRAW, GL_STREAM_DRAW};
    const int L = pick(5, 6); long tot = 1; for (int i = 0; i < L; ++i) tot *= NOP;
    for (long c = 0; c < tot; ++c) if (begin("buffer-histories")) {
        Driver drv; D = &drv; drv.next = c % 3 ? 1 : 0xfffffff0u;
        describe([&] { S s; long q = c; static const char *N[] = {"alloc 0", "alloc 1", "new array 0", "new array 1", "new element 0", "new element 1", "new uniform 0", "new uniform 1", "bind 0", "bind 1", "free 0", "free 1"}; for (int i = 0; i < L; ++i, q /= NOP) s += S(i ? ", " : "") + N[q % NOP]; return s; });
        NXGLBuffer *b[2] = {nullptr, nullptr}; struct M { GLenum target; S data; GLenum use; bool stored; } m[2]; S keep[16]; long q = c; uint64_t hs = 7;
        for (int i = 0; i < L; ++i, q /= NOP) {
            int op = q % NOP, k = op & 1; std::map<GLenum, GLuint> before = drv.bound; GLuint want = 0; GLenum wt = 0; bool check = false;
            if (op < BIND0) { if (b[k]) continue;
                keep[i] = S((i * 37 + c) % 70, (char)('a' + i)); if (c % 5 == 0) keep[i] = ""; GLenum use = USE[(i + c) % 3];
                if (op < NEWA0) { b[k] = nx_gl_buffer_alloc(); m[k] = {GL_ARRAY_BUFFER, "", GL_STATIC_DRAW, false}; }
                else { GLenum t = op < NEWE0 ? GL_ARRAY_BUFFER : op < GEN0 ? GL_ELEMENT_ARRAY_BUFFER : GL_UNIFORM_BUFFER; GLsizeiptr n = keep[i].size(); const void *d = keep[i].data();
                    b[k] = op < NEWE0 ? nx_gl_buffer_new_array(n, d, use) : op < GEN0 ? nx_gl_buffer_new_element_array(n, d, use) : nx_gl_buffer_new(t, n, d, use); m[k] = {t, keep[i], use, true}; check = true; wt = t; want = b[k]->id; }
            } else if (!b[k]) { if (op >= FREE0) nx_gl_buffer_free(nullptr); continue; }
            else if (op < FREE0) { nx_gl_buffer_bind(b[k]); check = true; wt = m[k].target; want = b[k]->id; }
            else { GLuint id = b[k]->id; nx_gl_buffer_free(b[k]); b[k] = nullptr; if (drv.bufs.count(id)) fail("freed buffer still exists"); check = true; wt = m[k].target; want = 0; }
            step();
            if (check) { if (drv.bound[wt] != want) fail("after step %d buffer %u is bound, expected %u", i, drv.bound[wt], want); for (auto &p : drv.bound) if (p.first != wt && p.second != (before.count(p.first) ? before[p.first] : 0)) fail("step %d changes the binding of another target", i); }
            if ((int)drv.bufs.size() != !!b[0] + !!b[1]) fail("%d buffers exist after step %d", (int)drv.bufs.size(), i);
            for (int j = 0; j < 2; ++j) if (b[j]) { if (!b[j]->id || !drv.bufs.count(b[j]->id)) { fail("buffer %d has no storage object", j); continue; } Buf &o = drv.bufs[b[j]->id];
                if (b[j]->target != m[j].target || b[j]->size != (GLsizeiptr)m[j].data.size() || b[j]->usage_hint != m[j].use) fail("buffer %d describes another buffer", j);
                if (o.stored != m[j].stored || (o.stored && (o.data != m[j].data || o.usage != m[j].use || o.target != m[j].target))) fail("buffer %d holds other data after step %d", j, i); hs = mix(hs, mix(o.data.size(), o.target)); }
            if (b[0] && b[1] && b[0]->id == b[1]->id) fail("two buffers share one object");
            if (drv.bad) { fail("%s", drv.why.c_str()); break; }
        }
        state(hs); for (auto &x : b) nx_gl_buffer_free(x); if (!drv.bufs.empty()) fail("buffers left over"); D = nullptr;
    }
    for (int k = 0; k < 4; ++k) if (begin("no-buffer")) { describe([&] { return fmt("no buffer object to be had, way %d", k); }); Driver drv; D = &drv; drv.gen_fails = true; static char d[4]; bool ok = guarded([&] { if (k == 0) nx_gl_buffer_alloc(); else if (k == 1) nx_gl_buffer_new_array(4, d, GL_STATIC_DRAW); else if (k == 2) nx_gl_buffer_new_element_array(4, d, GL_STATIC_DRAW); else nx_gl_buffer_new(GL_UNIFORM_BUFFER, 4, d, GL_STATIC_DRAW); }); step(); if (ok) fail("no fatal error"); state(k); D = nullptr; }
    // leaks
    for (int n = 0; n < 300; ++n) if (begin("buffer-memory")) { Driver drv; D = &drv; S data(n * 11, 'd'); { NXGLBuffer *w = nx_gl_buffer_new_array(1, "x", GL_STATIC_DRAW); nx_gl_buffer_free(w); } S before = data; size_t h0 = heap(); NXGLBuffer *x = nx_gl_buffer_new_array(data.size(), data.data(), GL_STREAM_DRAW); bool ok = drv.bufs[x->id].data == data; nx_gl_buffer_free(x); drv.bufs.clear(); step(); if (!ok) fail("data of %d differ", n * 11); if (data != before) fail("caller data changed"); if (heap() > h0) fail("memory grows"); state(n); D = nullptr; }
}

static void debug() {
    static const GLenum SEV[] = {GL_DEBUG_SEVERITY_NOTIFICATION, GL_DEBUG_SEVERITY_LOW, GL_DEBUG_SEVERITY_MEDIUM, GL_DEBUG_SEVERITY_HIGH, 0x1234}; static const int LV[] = {NX_LOG_INFO, NX_LOG_NORMAL, NX_LOG_WARNING, NX_LOG_ERROR, NX_LOG_ERROR};
    static const char *MSG[] = {"", "message", "100% %s %n", "two\nlines"}; S big(30000, 'g');
    for (int sv = 0; sv < 5; ++sv) for (int ms = 0; ms < 5; ++ms) for (int src = 0; src < 6; ++src) for (int ty = 0; ty < 9; ++ty) if (begin("debug-messages")) {
        S m = ms < 4 ? MSG[ms] : big; describe([&] { return fmt("severity %d, message %d, source %d, type %d", sv, ms, src, ty); }); Driver drv; D = &drv; std::vector<Line> ln; lines = &ln;
        nx_gl_debug_enable(); step(); if (!drv.debug_on) fail("debug output is not enabled"); if (!drv.cb) fail("no debug callback"); else { ln.clear(); drv.cb(GL_DEBUG_SOURCE_API + src, GL_DEBUG_TYPE_ERROR + ty, ty * 100 + src, SEV[sv], (GLsizei)m.size(), m.c_str(), drv.cb_user); if (ln.size() != 1 || ln[0].level != LV[sv] || ln[0].msg != m) fail("message logged %d times, at level %d", (int)ln.size(), ln.empty() ? -1 : ln[0].level); }
        nx_gl_debug_disable(); step(); if (drv.debug_on) fail("debug output stays enabled"); nx_gl_debug_enable(); if (!drv.debug_on || !drv.cb) fail("debug output cannot be enabled again");
        lines = nullptr; D = nullptr; state(mix(sv * 5 + ms, src * 9 + ty));
    }
    for (int k = 0; k < 16; ++k) if (begin("versions")) { Driver drv; D = &drv; drv.version = k & 1 ? "OpenGL ES 3.2 100% %s" : "V"; drv.sl = k & 2 ? "GLSL ES 3.20" : "S" + S(k * 50, 'l'); std::vector<Line> ln; lines = &ln; nx_gl_info(); lines = nullptr; step(); bool v = false, s = false; for (auto &l : ln) { if (l.level != NX_LOG_INFO) fail("version logged at level %d", l.level); v |= l.msg == drv.version; s |= l.msg == drv.sl; } if (!v || !s) fail("versions not logged"); D = nullptr; state(k); }
}

static void projections() {
    static const double FX[] = {0.5, 1, 320, 525.5, 4000}, NR[] = {0.01, 0.1, 1, 7.3}, FR[] = {8, 10.7, 99.9, 1e5}, VW[] = {1, 2, 640, 1919};
    for (double fx : FX) for (double fy : FX) for (double n : NR) for (double f : FR) for (double w : VW) for (double h : VW) if (begin("perspective")) {
        describe([&] { return fmt("f %g %g, depth %g..%g, viewport %gx%g", fx, fy, n, f, w, h); });
        double *P = (double *)malloc(16 * sizeof(double)); for (int i = 0; i < 16; ++i) P[i] = 77 + i; nx_gl_projection_sym_perspective_from_camera(P, fx, fy, n, f, w, h); step();
        // what it has to do: (X,Y,-Z) shows at pixel (fx X / Z, fy Y / Z) from the centre, depth n to -1 and f to 1
        static const double X[] = {-3, 0, 0.25, 2}; for (double x : X) for (double y : X) for (int zi = 0; zi < 4; ++zi) { double z = zi == 0 ? n : zi == 1 ? f : zi == 2 ? (n + f) / 2 : n * 1.5; double v[4] = {x, y, -z, 1}, c[4]; for (int r = 0; r < 4; ++r) { c[r] = 0; for (int k = 0; k < 4; ++k) c[r] += P[k * 4 + r] * v[k]; }
            auto bad = [](double a, double b) { return !(fabs(a - b) <= 1e-11 * (1 + fabs(b))); }; double ez = (f + n) / (f - n) - 2 * n * f / ((f - n) * z);
            if (bad(c[3], z) || bad(c[0] / c[3], 2 * fx * x / (z * w)) || bad(c[1] / c[3], 2 * fy * y / (z * h)) || bad(c[2] / c[3], ez)) { fail("(%g,%g,%g) shows at (%g,%g,%g)", x, y, -z, c[0] / c[3], c[1] / c[3], c[2] / c[3]); break; } }
        free(P); state(mix((uint64_t)(fx * 8 + fy), (uint64_t)(n * 100 + f + w * 7 + h)));
    }
    // products: all pairs of unit matrices, and general ones, in every combination of missing parts
    auto mat = [](int k, double *o) { for (int i = 0; i < 16; ++i) o[i] = 0; if (k < 16) o[k] = 1; else for (int i = 0; i < 16; ++i) o[i] = ((i * 7 + k * 5) % 11 - 5) * (k % 2 ? 0.25 : 1e-3); };
    for (int a = 0; a < 19; ++a) for (int b = -1; b < 19; ++b) for (int c = -1; c < 19; ++c) if (begin("products")) {
        describe([&] { return fmt("P %d V %d M %d", a, b, c); }); double *P = (double *)malloc(128), *V = (double *)malloc(128), *M = (double *)malloc(128), e[16], t[16]; mat(a, P); mat(b < 0 ? 0 : b, V); mat(c < 0 ? 0 : c, M); double P0[16], V0[16], M0[16]; memcpy(P0, P, 128); memcpy(V0, V, 128); memcpy(M0, M, 128);
        auto mul = [](double *o, const double *x, const double *y) { for (int q = 0; q < 4; ++q) for (int r = 0; r < 4; ++r) { double s = 0; for (int k = 0; k < 4; ++k) s += x[k * 4 + r] * y[q * 4 + k]; o[q * 4 + r] = s; } };
        memcpy(t, P, 128); if (b >= 0) mul(t, P, V); memcpy(e, t, 128); if (c >= 0) mul(e, t, M);
        float *g = (float *)malloc(64); for (int i = 0; i < 16; ++i) g[i] = NAN; nx_gl_projection_to_mvp(g, c < 0 ? nullptr : M, b < 0 ? nullptr : V, P); step();
        for (int i = 0; i < 16; ++i) if (!(fabs(g[i] - e[i]) <= 1e-6 * (1 + fabs(e[i])))) { fail("element %d is %g, expected %g", i, g[i], e[i]); break; }
        if (memcmp(P, P0, 128) || memcmp(V, V0, 128) || memcmp(M, M0, 128)) fail("inputs changed"); free(P); free(V); free(M); free(g); state(mix(a, b * 20 + c));
    }
}

void mc_run() { nx_log_fatal_func(hook); shaders(); buffers(); debug(); projections(); }
