// P40 running out of memory, at every allocation of every operation.
#define NX_ENABLE_JLOG 1
#include "image_model.hh"
#include <dirent.h>
#include <memory>
extern "C" {
#include "virg/nexus/nx_alloc.h"
#include "virg/nexus/nx_string.h"
#include "virg/nexus/nx_string_array.h"
#include "virg/nexus/nx_mem_block.h"
#include "virg/nexus/nx_filesystem.h"
#include "virg/nexus/nx_data_frame.h"
#include "virg/nexus/nx_json_tree.h"
#include "virg/nexus/nx_json_bundle.h"
#include "virg/nexus/nx_json_log.h"
#include "virg/nexus/nx_graph.h"
#include "virg/nexus/nx_options.h"
#include "virg/nexus/nx_image_io.h"
#include "virg/nexus/nx_image_pyr.h"
#include "virg/nexus/nx_image_pyr_builder.h"
#include "virg/nexus/nx_sift_detector.h"
#include "virg/nexus/nx_keypoint_vector.h"
#include "virg/nexus/nx_fast_detector.h"
#include "virg/nexus/nx_harris_detector.h"
#include "virg/nexus/nx_brief_extractor.h"
#include "virg/nexus/nx_checkerboard_detector.h"
#include "virg/nexus/nx_affine_warp_processor.h"
#include "virg/nexus/nx_usac.h"
#include "virg/nexus/nx_usac_homography.h"
#include "virg/nexus/nx_homography.h"
#include "virg/nexus/nx_epipolar.h"
#include "virg/nexus/nx_statistics.h"
#include "virg/nexus/nx_linear_solvers.h"
#include "virg/nexus/nx_svd.h"
#include "virg/nexus/nx_mat.h"
#include "virg/nexus/nx_bit_ops.h"
#include "virg/nexus/nx_filter.h"
#include "virg/nexus/nx_uniform_sampler.h"
#include "virg/nexus/nx_gaussian_sampler.h"
#include "virg/nexus/nx_point_match_2d_stats.h"
#include "virg/nexus/nx_vgg_affine_dataset.h"
#include "virg/nexus/nx_kitti_slam.h"
#include "virg/nexus/nx_temple_color_128.h"
#include "virg/nexus/nx_gnuplot.h"
#include "virg/nexus/nx_gc.h"
#include "virg/nexus/nx_colorspace.h"
}
using namespace mc;
typedef std::string S;

// ---------------------------------------------------------------- allocation faults
static int inj_on = 0; static long inj_n = 0, inj_at = -1; static bool inj_rest = false; static const size_t HUGE_SZ = (size_t)1 << 36; // larger than this machine has
static bool inject(size_t sz) { if (sz > HUGE_SZ) return true; if (inj_on <= 0 || !sz) return false; long k = inj_n++; return inj_at >= 0 && (inj_rest ? k >= inj_at : k == inj_at); }
extern "C" {
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void *__real_aligned_alloc(size_t, size_t); int __real_posix_memalign(void **, size_t, size_t); char *__real_strdup(const char *); char *__real_strndup(const char *, size_t);
void *__wrap_malloc(size_t n) { if (inject(n)) { errno = ENOMEM; return nullptr; } return __real_malloc(n); }
void *__wrap_calloc(size_t m, size_t n) { size_t t; if (__builtin_mul_overflow(m, n, &t) || inject(t)) { errno = ENOMEM; return nullptr; } return __real_calloc(m, n); }
void *__wrap_realloc(void *p, size_t n) { if (inject(n)) { errno = ENOMEM; return nullptr; } return __real_realloc(p, n); }
void *__wrap_aligned_alloc(size_t a, size_t n) { if (inject(n)) { errno = ENOMEM; return nullptr; } return __real_aligned_alloc(a, n); }
int __wrap_posix_memalign(void **p, size_t a, size_t n) { if (inject(n)) return ENOMEM; return __real_posix_memalign(p, a, n); }
char *__wrap_strdup(const char *s) { if (inject(1)) { errno = ENOMEM; return nullptr; } return __real_strdup(s); }
char *__wrap_strndup(const char *s, size_t n) { if (inject(1)) { errno = ENOMEM; return nullptr; } return __real_strndup(s, n); }
}
struct Quiet { int s; Quiet() : s(inj_on) { inj_on = 0; } ~Quiet() { inj_on = s; } }; // harness code in an operation

static S out_of(const std::function<void(FILE *)> &f) { char *b = nullptr; size_t n = 0; FILE *ms; { Quiet q; ms = open_memstream(&b, &n); } f(ms); Quiet q; fclose(ms); S o(b, n); free(b); return o; }
static FILE *in_from(const S &s) { Quiet q; FILE *f = ::tmpfile(); fwrite(s.data(), 1, s.size(), f); rewind(f); return f; }
static S img_str(const NXImage *im) { Quiet q; S o = fmt("%dx%d %d %d:", im->width, im->height, im->type, im->dtype); return o + fmt("%llx", (unsigned long long)img_hash(im)); }
static S keys_str(int n, const NXKeypoint *k) { S o = fmt("%d:", n); for (int i = 0; i < n; ++i) o += fmt("%d,%d,%d,%g,%g;", k[i].x, k[i].y, k[i].level, k[i].score, k[i].ori); return o; }
static S dstr(int n, const double *d) { S o; for (int i = 0; i < n; ++i) o += fmt("%.6g ", d[i]); return o; }
static S g_dir;
static S path(const char *n) { return g_dir + "/" + n; }
static double tex(int x, int y) { return (x / 5 + y / 4) % 2 ? 40 + (x * 7 + y * 3) % 30 : 170 + (x * 3 + y * 5) % 60; }
static Src *g_img, *g_rgba, *g_flt;
static std::vector<NXPointMatch2D> corr(int n, bool fund) {
    std::vector<NXPointMatch2D> v(n); for (int i = 0; i < n; ++i) { memset(&v[i], 0, sizeof v[i]); double x = (i * 37 % 100) - 50, y = (i * 53 % 90) - 45, z = 4 + (i * 29 % 17) / 4.; v[i].x[0] = x; v[i].x[1] = y; if (fund) { double X = x * z / 100, Y = y * z / 100, X2 = X * 0.98 - z * 0.1 + 1, Z2 = z * 0.98 + X * 0.1 + .2; v[i].xp[0] = X2 / Z2 * 100; v[i].xp[1] = (Y + .3) / Z2 * 100; } else { double w = 1 + 0.001 * x - 0.002 * y; v[i].xp[0] = (1.1 * x + 0.2 * y + 5) / w; v[i].xp[1] = (-0.1 * x + 0.9 * y - 3) / w; } v[i].is_inlier = NX_TRUE; v[i].match_cost = i; }
    return v;
}
struct Op { const char *name; std::function<S()> f; };
#define FREE(p) do { if (p) nx_free(p); } while (0)
static std::vector<Op> ops() {
    std::vector<Op> v;
    auto op = [&](const char *n, std::function<S()> f) { v.push_back({n, f}); };
    // strings
    op("strdup", [] { char *s = nx_strdup("some text"); if (!s) return S("error"); S o = s; nx_free(s); return o; });
    op("strredup", [] { char *s = nullptr; nx_strredup(&s, "first"); nx_strredup(&s, "second, longer than the first"); S o = s ? s : "error"; FREE(s); return o; });
    op("fstr", [] { char *s = nx_fstr("%d %s %200d", 5, "x", 7); if (!s) return S("error"); S o = s; nx_free(s); return o; });
    op("strread", [] { S b = out_of([](FILE *f) { nx_strwrite("to be read", f); }); FILE *f = in_from(b); char *s = nx_strread0(f); { Quiet q; fclose(f); } if (!s) return S("error"); S o = s; nx_free(s); return o; });
    op("readable", [] { char *s = nx_xstr_from_readable(strlen("a\\nb"), "a\\nb"), *d = nx_xstr_from_double_quoted(strlen("x\"\"y"), "x\"\"y"); if (!s || !d) return S("error"); S o = S(s) + d; nx_free(s); nx_free(d); return o; });
    op("hash-to-string", [] { uint8_t h[4] = {1, 200, 3, 40}; char *s = nx_hash_to_str(4, h); if (!s) return S("error"); S o = s; nx_free(s); return o; });
    op("string-array", [] { NXStringArray *a = nx_string_array_new(2); nx_string_array_set(a, 0, "zero"); nx_string_array_setf(a, 1, "one %d", 1); for (int i = 0; i < 20; ++i) nx_string_array_appendf(a, "item %d", i); nx_string_array_append(a, "last"); nx_string_array_resize(a, 30); nx_string_array_resize(a, 20);
        S b = out_of([&](FILE *f) { nx_string_array_xwrite(a, f); }); FILE *f = in_from(b); NXStringArray *r = nx_string_array_xread0(f); { Quiet q; fclose(f); } S o; for (int i = 0; i < nx_string_array_size(r); ++i) { char *s = nx_string_array_get(r, i); o += s ? S(s) + ";" : S("-"); } nx_string_array_free(a); nx_string_array_free(r); return o; });
    op("string-array-list", [] { char a[] = "one", b[] = "two"; char *l[] = {a, b, nullptr}; NXStringArray *sa = nx_string_array_new_from_null_terminated_list(l); S o = fmt("%d ", nx_string_array_size(sa)); for (int i = 0; i < nx_string_array_size(sa); ++i) o += nx_string_array_get(sa, i); nx_string_array_free(sa); return o; });
    op("mem-block", [] { NXMemBlock *m = nx_mem_block_new(10); memset(m->ptr, 1, 10); nx_mem_block_resize(m, 100); memset((char *)m->ptr + 10, 2, 90); nx_mem_block_reserve(m, 5000); NXMemBlock *c = nx_mem_block_copy0(m), *d = nx_mem_block_alloc(); nx_mem_block_copy(d, c); S o((char *)d->ptr, d->size); nx_mem_block_release(m); nx_mem_block_resize(m, 3); nx_mem_block_free(m); nx_mem_block_free(c); nx_mem_block_free(d); return o; });
    op("keypoint-vector", [] { NXKeypointVector *k = nx_keypoint_vector_new(1); for (int i = 0; i < 40; ++i) { NXKeypoint *p = nx_keypoint_vector_push_back(k); memset(p, 0, sizeof *p); p->x = i; } nx_keypoint_vector_reserve(k, 200); NXKeypointVector *c = nx_keypoint_vector_copy0(k), *d = nx_keypoint_vector_alloc(); nx_keypoint_vector_copy(d, c); S o = keys_str(d->size, d->data); nx_keypoint_vector_resize(d, 300); nx_keypoint_vector_free(k); nx_keypoint_vector_free(c); nx_keypoint_vector_free(d); return o; });
    op("scan-dir", [] { NXStringArray *a = nx_scan_dir(path("dir").c_str()); S o; if (!a) return S("error"); std::vector<S> n; for (int i = 0; i < nx_string_array_size(a); ++i) n.push_back(nx_string_array_get(a, i)); std::sort(n.begin(), n.end()); for (auto &x : n) o += x + ";"; nx_string_array_free(a); return o; });
    op("bit-array", [] { uint8_t *b = nx_bit_array_new(100); S o((char *)b, 12); nx_free(b); return o; });
    // data frames and CSV
    op("data-frame", [] { NXDataFrame *df = nx_data_frame_alloc(); nx_data_frame_add_column(df, NX_DCT_STRING, "s"); nx_data_frame_add_column(df, NX_DCT_INT, "i"); nx_data_frame_add_column(df, NX_DCT_DOUBLE, "d"); nx_data_frame_add_column(df, NX_DCT_BOOL, "b"); nx_data_frame_add_column(df, NX_DCT_FACTOR, "f"); for (int i = 0; i < 20; ++i) { S t = fmt("level%d", i % 12); nx_data_frame_append_row(df, "text", i, 0.5 * i, i % 2 ? NX_TRUE : NX_FALSE, t.c_str()); } nx_data_frame_set_na(df, 3, 0); nx_data_frame_make_factor(df, 0);
        S o = out_of([&](FILE *f) { nx_data_frame_save_csv_stream(df, f); }); nx_data_frame_free(df); return o; });
    for (int fac = 0; fac < 2; ++fac) op(fac ? "csv-load-factors" : "csv-load", [fac] { S t = "name,\"x \"\"1\"\"\",b\n"; for (int i = 0; i < 12; ++i) t += fmt("n%d,%d.5,%s\n", i, i, i % 2 ? "true" : "false"); t += ",,\n"; FILE *f = in_from(t); NXDataFrame *df = nx_data_frame_load_csv_stream(f, fac ? NX_TRUE : NX_FALSE); { Quiet q; fclose(f); } if (!df) return S("error"); S o = out_of([&](FILE *f) { nx_data_frame_save_csv_stream(df, f); }); nx_data_frame_free(df); return o; });
    op("csv-long-field", [] { S t = "a,b\n" + S(9000, 'q') + ",\"" + S(9000, 'r') + "\"\n"; FILE *f = in_from(t); NXDataFrame *df = nx_data_frame_load_csv_stream(f, NX_FALSE); { Quiet q; fclose(f); } if (!df) return S("error"); S o = S(nx_data_frame_get_string(df, 0, 0)) + nx_data_frame_get_string(df, 0, 1); nx_data_frame_free(df); return o; });
    // JSON
    op("json-parse", [] { S t = "{\"a\": [1, -2.5e3, \"text \\\"q\\\"\", true, false, null, {}, []], \"b\": {\"c\": {\"d\": [[1],[2,[3]]]}}, \"" + S(200, 'k') + "\": \"" + S(5000, 'v') + "\"}"; std::vector<char> b(t.begin(), t.end()); b.push_back(0); NXJSONNode *n = nx_json_tree_from_string(b.data()); if (!n) return S("error"); S o = out_of([&](FILE *f) { nx_json_tree_fprint(f, n, 1); }); nx_json_tree_free(n); return o; });
    op("json-file", [] { NXJSONNode *n = nx_json_tree_from_file(path("t.json").c_str()); if (!n) return S("error"); S o = out_of([&](FILE *f) { nx_json_tree_fprint(f, n, 0); }); nx_json_tree_free(n); return o; });
    op("json-build", [] { NXJSONNode *n = nx_json_node_new_object(), *a = nx_json_node_new_array(); nx_json_object_add(n, "arr", a); for (int i = 0; i < 10; ++i) nx_json_array_add(a, nx_json_bundle_int(i)); int ia[] = {1, 2, 3}; float fa[] = {.5f, 2}; double da[] = {1.5, 3}; char x[] = "s1", y[] = "s2"; char *sa[] = {x, y}; nx_json_object_add(n, "ia", nx_json_bundle_int_array(3, ia)); nx_json_object_add(n, "fa", nx_json_bundle_float_array(2, fa)); nx_json_object_add(n, "da", nx_json_bundle_double_array(2, da)); nx_json_object_add(n, "sa", nx_json_bundle_string_array(2, sa)); nx_json_object_add(n, "s", nx_json_bundle_string("text")); nx_json_object_add(n, "b", nx_json_bundle_bool(NX_TRUE)); nx_json_object_add(n, "d", nx_json_bundle_double(.25)); nx_json_object_add(n, "z", nx_json_bundle_size_t(77)); NXKeypoint k; memset(&k, 0, sizeof k); k.x = 3; k.id = 9; nx_json_object_add(n, "k", nx_json_bundle_keypoint_array(1, &k));
        S o = out_of([&](FILE *f) { nx_json_tree_fprint(f, n, 1); }); nx_json_tree_free(n); return o; });
    op("json-unbundle", [] { char t[] = "{\"i\":[1,2,3],\"f\":[0.5,2.0],\"s\":[\"x\",\"y\"],\"t\":\"str\"}"; NXJSONNode *n = nx_json_tree_from_string(t); if (!n) return S("error"); int c; S o; int *i = nx_json_unbundle_int_array(nx_json_object_get(n, "i", NX_JNT_ARRAY), &c); for (int q = 0; q < c; ++q) o += fmt("%d ", i[q]); float *f = nx_json_unbundle_float_array(nx_json_object_get(n, "f", NX_JNT_ARRAY), &c); for (int q = 0; q < c; ++q) o += fmt("%g ", f[q]); double *d = nx_json_unbundle_double_array(nx_json_object_get(n, "f", NX_JNT_ARRAY), &c); for (int q = 0; q < c; ++q) o += fmt("%g ", d[q]);
        NXStringArray *sa = nx_json_unbundle_as_string_array(nx_json_object_get(n, "s", NX_JNT_ARRAY)); for (int q = 0; q < nx_string_array_size(sa); ++q) o += nx_string_array_get(sa, q); char *s = nx_json_unbundle_string(nx_json_object_get(n, "t", NX_JNT_STRING)); o += s; char **ss = nx_json_unbundle_string_array(nx_json_object_get(n, "s", NX_JNT_ARRAY), &c); for (int q = 0; q < c; ++q) { o += ss[q]; nx_free(ss[q]); } nx_free(ss); nx_free(i); nx_free(f); nx_free(d); nx_free(s); nx_string_array_free(sa); nx_json_tree_free(n); return o; });
    op("json-log", [] { { Quiet q; nx_json_log_free(); } NX_JLOG_I(2, "n", 5); for (int i = 0; i < 3; ++i) NX_JLOG_ADDD(2, "list", i + .5) S o = out_of([&](FILE *f) { NX_JLOG_FPRINT(2, f); }); nx_json_log_free(); return o; });
    // options
    op("options", [] { NXOptions *p = nx_options_alloc(); nx_options_add(p, "b", "-v|--verbose", "chatty", NX_FALSE); nx_options_add(p, "i", "-n|--number", "how many", 3); nx_options_add(p, "d", "-x", "value", 0.5); nx_options_add(p, "s", "-o|--output", "where to", "file"); nx_options_add(p, "r", "files"); nx_options_add_help(p); nx_options_set_usage_header(p, "head"); nx_options_set_usage_footer(p, "foot");
        char a0[] = "prog", a1[] = "-n", a2[] = "12", a3[] = "--output", a4[] = "elsewhere", a5[] = "f1", a6[] = "f2"; char *av[] = {a0, a1, a2, a3, a4, a5, a6, nullptr}; nx_options_set_from_args(p, 7, av); S o = fmt("%d %s %g ", nx_options_get_int(p, "-n"), nx_options_get_string(p, "-o"), nx_options_get_double(p, "-x")); char **r = nx_options_get_rest(p); for (int i = 0; r && r[i]; ++i) o += S(r[i]) + ";"; o += out_of([&](FILE *f) { nx_options_print_values(p, f); nx_options_print_usage(p, f); }); nx_options_free(p); return o; });
    // numbers
    op("graph", [] { NXGraphAdjMat *a = nx_graph_new_adj_mat("g", 5); NXGraphAdjLst *l = nx_graph_new_adj_lst(nullptr, 5); for (int i = 0; i < 8; ++i) { nx_graph_insert_adj_mat(a, i % 5, (i * 2 + 1) % 5, i); nx_graph_insert_adj_lst(l, i % 5, (i * 2 + 1) % 5, i); } S o = fmt("%s %d %s %d ", a->name, a->n_e, l->name, l->n_e); for (int i = 0; i < 5; ++i) for (NXGraphEdge *e = l->edges[i]; e; e = e->next) o += fmt("%d:%g ", e->v, e->weight); o += dstr(25, a->weights); nx_graph_free_adj_mat(a); nx_graph_free_adj_lst(l); return o; });
    op("svd", [] { double A[12] = {1, 2, 3, 4, 5, 6, 7, 8, 10, 2, 1, 1}, U[16], s[3], Vt[9], B[12]; memcpy(B, A, sizeof A); nx_dsvd_usvt(U, 4, s, Vt, 3, 4, 3, B, 4); S o = dstr(3, s); memcpy(B, A, sizeof A); nx_dsvd_only_s(s, 4, 3, B, 4); o += dstr(3, s); float C[12], fs[3], fV[9]; for (int i = 0; i < 12; ++i) C[i] = A[i]; nx_ssvd_svt(fs, fV, 3, 4, 3, C, 4); o += fmt("%.4g %.4g", fs[0], fs[1]); return o; });
    op("solver", [] { double A[9] = {4, 1, 0, 1, 3, 1, 0, 1, 5}, b[3] = {1, 2, 3}; int ip[3]; bool ok = nx_dsym_solver(NX_SYMMETRIC_UPPER, 3, 1, A, 3, b, 3, ip) == NX_TRUE; return ok ? dstr(3, b) : S("error"); });
    op("matrix-read", [] { FILE *f = in_from("1 2 3\n4 5 6\n7 8 9\n10 11 12\n"); int m = 0, n = 0; double *d = nx_dmat_xread(f, &m, &n); { Quiet q; fclose(f); } if (!d) return S("error"); S o = fmt("%d %d ", m, n) + dstr(m * n, d); nx_free(d); return o; });
    op("matrix-transpose", [] { double a[12]; for (int i = 0; i < 12; ++i) a[i] = i; nx_dmat_transpose(3, 4, a); return dstr(12, a); });
    op("samplers", [] { NXUniformSampler *u = nx_uniform_sampler_new_with_seed(5); NXGaussianSampler *g = nx_gaussian_sampler_new_with_seed(9); uint32_t x[4]; for (auto &z : x) z = nx_uniform_sampler_sample32(u); double d[4]; nx_gaussian_sampler_sample_d(g, 4, d, 0, 1); S o = fmt("%u %u ", x[0], x[3]) + dstr(4, d); nx_uniform_sampler_free(u); nx_gaussian_sampler_free(g); return o; });
    op("sampler-instances", [] { nx_gaussian_sampler_instance_free(); nx_uniform_sampler_instance_free(); NXUniformSampler *u = nx_uniform_sampler_instance(); NXGaussianSampler *g = nx_gaussian_sampler_instance(); if (!u || !g) return S("error"); nx_uniform_sampler_init_seed(u, 5); nx_gaussian_sampler_init_seed(g, 6); uint32_t x[4]; for (auto &z : x) z = nx_uniform_sampler_sample32(u); double d[4]; nx_gaussian_sampler_sample_d(g, 4, d, 0, 1); S o = fmt("%u ", x[1]) + dstr(4, d); nx_gaussian_sampler_instance_free(); nx_uniform_sampler_instance_free(); return o; });
    // images
    for (int k = 0; k < 3; ++k) op(k == 0 ? "image-new" : k == 1 ? "image-new-rgba" : "image-new-float", [k] { Src *s = k == 0 ? g_img : k == 1 ? g_rgba : g_flt; NXImage *a = nx_image_copy0(s->im), *b = nx_image_new_like(s->im), *c = nx_image_alloc(); nx_image_copy(b, a); nx_image_copy(c, b); S o = img_str(c); nx_image_resize(c, 90, 90, -1, NX_IMAGE_RGBA, NX_IMAGE_FLOAT32); nx_image_free(a); nx_image_free(b); nx_image_free(c); return o; });
    for (int f = 0; f < 2; ++f) op(f ? "filters-float" : "filters", [f] { Src *s = f ? g_flt : g_img; NXImage *d = nx_image_alloc(), *e = nx_image_alloc(); S o; nx_image_smooth(d, s->im, 1.5, 2, 3, nullptr); o += img_str(d); nx_image_filter_box(e, d, 2, 3, nullptr); o += img_str(e); nx_image_filter_box_x(e, d, 2, nullptr); o += img_str(e); nx_image_filter_box_y(e, d, 2, nullptr); o += img_str(e); nx_image_deriv_x(e, d); o += img_str(e); nx_image_deriv_y(e, d); o += img_str(e); nx_image_downsample(e, d); o += img_str(e); nx_image_upsample(e, d); o += img_str(e); nx_image_downsample_aa_x(e, d); o += img_str(e); nx_image_downsample_aa_y(e, d); o += img_str(e); nx_image_scale(e, d, 0.7f); o += img_str(e); nx_image_free(d); nx_image_free(e); return o; });
    op("color", [] { NXImage *d = nx_image_alloc(), *e = nx_image_alloc(); S o; nx_image_copy(d, g_rgba->im); nx_image_convert_type(d, NX_IMAGE_GRAYSCALE); o += img_str(d); nx_image_convert_dtype(e, d); o += img_str(e); nx_image_convert_type(d, NX_IMAGE_RGBA); o += img_str(d); nx_image_free(d); nx_image_free(e); return o; });
    for (int k = 0; k < 3; ++k) op(k == 0 ? "pyramid-fast" : k == 1 ? "pyramid-fine" : "pyramid-scaled", [k] { NXImagePyrBuilder *b = k == 0 ? nx_image_pyr_builder_new_fast(3, 1.f) : k == 1 ? nx_image_pyr_builder_new_fine(2, 2, 1.2f) : nx_image_pyr_builder_new_scaled(3, 0.7f, 1.f); NXImagePyr *p = nx_image_pyr_builder_build0(b, g_img->im); S o; for (int l = 0; l < p->n_levels; ++l) o += img_str(p->levels[l].img); nx_image_pyr_builder_build(b, p, g_flt->im); for (int l = 0; l < p->n_levels; ++l) o += img_str(p->levels[l].img); nx_image_pyr_free(p); nx_image_pyr_builder_free(b); return o; });
    static const char *EXT[] = {"p.pgm", "p.png", "p.jpg", "c.ppm", "c.png", "c.jpg"};
    for (int k = 0; k < 6; ++k) for (int x = 0; x < 2; ++x) op((new S(S(x ? "xload-" : "load-") + EXT[k]))->c_str(), [k, x] { NXImage *d = nx_image_alloc(); if (x) nx_image_xload(d, path(EXT[k]).c_str(), NX_IMAGE_LOAD_AS_IS); else if (nx_image_load(d, path(EXT[k]).c_str(), NX_IMAGE_LOAD_AS_IS) != NX_OK) { nx_image_free(d); return S("error"); } S o = img_str(d); nx_image_free(d); return o; });
    for (int k = 0; k < 6; ++k) op((new S(S("load-gray-") + EXT[k]))->c_str(), [k] { NXImage *d = nx_image_alloc(); nx_image_xload(d, path(EXT[k]).c_str(), k < 3 ? NX_IMAGE_LOAD_RGBA : NX_IMAGE_LOAD_GRAYSCALE); S o = img_str(d); nx_image_free(d); return o; });
    for (int k = 0; k < 6; ++k) for (int x = 0; x < 2; ++x) op((new S(S(x ? "xsave-" : "save-") + EXT[k]))->c_str(), [k, x] { S f = g_dir + "/out_" + EXT[k]; const NXImage *im = k < 3 ? g_img->im : g_rgba->im; if (x) nx_image_xsave(im, f.c_str()); else if (nx_image_save(im, f.c_str()) != NX_OK) return S("error"); Quiet q; return read_file(f); });
    // features
    op("fast", [] { NXFastDetector *d = nx_fast_detector_alloc(); nx_fast_detector_set_ori_param(d, NX_TRUE, 4); NXKeypoint k[40]; int n = nx_fast_detector_detect(d, 40, k, g_img->im); S o = keys_str(n, k); NXImagePyrBuilder *b = nx_image_pyr_builder_new_fast(2, 1.f); NXImagePyr *p = nx_image_pyr_builder_build0(b, g_img->im); n = nx_fast_detector_detect_pyr(d, 40, k, p, 2); o += keys_str(n, k); nx_fast_detector_free(d); nx_image_pyr_free(p); nx_image_pyr_builder_free(b); return o; });
    op("fast-suppression", [] { NXKeypoint k[60], s[60]; int n = nx_fast_detect_keypoints(60, k, g_img->im, 20); nx_fast_score_keypoints(n, k, g_img->im, 20); int m = nx_fast_suppress_keypoints(60, s, n, k); return keys_str(m, s); });
    op("harris", [] { NXImage *d[3] = {nullptr, nullptr, nullptr}, *s = nx_image_alloc(); nx_harris_deriv_images(d, g_img->im, 1.2f); nx_harris_score_image(s, d, 0.05f); S o = img_str(s); for (int i = 0; i < 3; ++i) nx_image_free(d[i]); nx_image_free(s); return o; });
    op("brief", [] { NXBriefExtractor *b = nx_brief_extractor_new_with_seed(4, 6, 3); NXImagePyrBuilder *pb = nx_image_pyr_builder_new_fast(3, 1.f); NXImagePyr *p = nx_image_pyr_builder_build0(pb, g_img->im); uchar d[4]; nx_brief_extractor_compute_pyr(b, p, 20, 20, 0, d); S o((char *)d, 4); S t = out_of([&](FILE *f) { nx_brief_extractor_xwrite(b, f); }); FILE *f = in_from(t); NXBriefExtractor *c = nx_brief_extractor_alloc(); nx_brief_extractor_xread(c, f); { Quiet q; fclose(f); } o += fmt("%d %d", c->n_octets, c->offsets[0]); nx_brief_extractor_resize(c, 9, 7); nx_brief_extractor_randomize_with_seed(c, 4); o += fmt(" %d", c->offsets[3]); nx_brief_extractor_free(b); nx_brief_extractor_free(c); nx_image_pyr_free(p); nx_image_pyr_builder_free(pb); return o; });
    op("sift", [] { NXSIFTDetector *d = nx_sift_detector_new(nx_sift_default_parameters()); int cap = 0; NXKeypoint *k = nullptr; uchar *ds = nullptr; int n = nx_sift_detector_compute(d, g_img->im, &cap, &k, &ds); S o = keys_str(n, k) + fmt("%llx", (unsigned long long)hash_bytes(ds, 128 * n)); std::vector<NXPointMatch2D> m(n); int q = nx_sift_match_brute_force(n, k, ds, n, k, ds, m.data(), 0.8f); o += fmt(" %d", q); nx_sift_xsave(path("s.sift").c_str(), n, k, ds); int c2 = 0; NXKeypoint *k2 = nullptr; uchar *d2 = nullptr; int n2 = nx_sift_xload(path("s.sift").c_str(), &c2, &k2, &d2); o += keys_str(n2, k2); FREE(k); FREE(ds); FREE(k2); FREE(d2); nx_sift_detector_free(d); return o; });
    op("sift-cache", [] { S dir = g_dir + "/cache"; { Quiet q; if (system(("rm -rf '" + dir + "'; mkdir '" + dir + "'").c_str())) return S("error"); } NXSIFTDetector *d = nx_sift_detector_new(nx_sift_default_parameters()); S o; for (int i = 0; i < 2; ++i) { int cap = 0; NXKeypoint *k = nullptr; uchar *ds = nullptr; int n = nx_sift_detector_compute_with_cache(d, g_img->im, &cap, &k, &ds, dir.c_str()); o += keys_str(n, k); std::vector<NXPointMatch2D> m(n); o += fmt(" %d", nx_sift_match_brute_force_with_cache(n, k, ds, n, k, ds, m.data(), 0.8f, dir.c_str())); FREE(k); FREE(ds); } nx_sift_detector_free(d); return o; });
    op("checkerboard", [] { NXImage *o = nx_image_alloc(), *b[4]; for (auto &x : b) x = nx_image_alloc(); nx_checkers_local_radon_images(b, g_img->im, 3); S s; for (auto &x : b) s += img_str(x); nx_checkers_score_image(o, b); s += img_str(o); for (auto &x : b) nx_image_free(x); nx_image_free(o); return s; });
    op("affine-warp", [] { NXAffineWarpProcessor *w = nx_affine_warp_processor_new(); nx_affine_warp_processor_set_bg_fixed(w, 7); nx_affine_warp_processor_set_post_blur_sigma(w, 0.8); S o; for (int i = 0; i < 2; ++i) { NXAffineWarpParam p; memset(&p, 0, sizeof p); p.scale = i ? 1.3 : 0.8; p.tilt = 1 + i; p.planar_angle = 0.5; p.tilt_angle = 0.3; nx_affine_warp_processor_warp(w, g_img->im, p); o += img_str(nx_affine_warp_processor_warp_result(w)); } nx_affine_warp_processor_free(w); return o; });
    // geometry
    for (int k = 0; k < 6; ++k) op(k == 0 ? "homography-dlt" : k == 1 ? "homography-ransac" : k == 2 ? "homography-norm-ransac" : k == 3 ? "usac" : k == 4 ? "fundamental" : "fundamental-ransac", [k] {
        auto c = corr(30, k >= 4); double h[9] = {0}; { Quiet q; nx_uniform_sampler_init_seed(nx_uniform_sampler_instance(), 7); } int n = 30;
        switch (k) { case 0: nx_homography_estimate_dlt(h, 30, c.data()); break; case 1: n = nx_homography_estimate_ransac(h, 30, c.data(), 1, 50); break; case 2: n = nx_homography_estimate_norm_ransac(h, 30, c.data(), 1, 50); break; case 3: n = nx_usac_estimate_homography(h, 30, c.data(), 1, 50); break; case 4: nx_fundamental_estimate(h, 30, c.data()); break; default: n = nx_fundamental_estimate_norm_ransac(h, 30, c.data(), 1, 50); }
        if (n == 0) return S("error"); S o = fmt("%d ", n); for (int i = 0; i < 9; ++i) o += fmt("%.2g ", h[i] / h[8] + 0.0); return k == 1 || k == 2 || k == 3 || k == 5 ? fmt("%d", n) : o; });
    op("match-stats", [] { NXPointMatch2DStats *s = nx_point_match_2d_stats_new(); S o = s ? "stats" : "error"; nx_point_match_2d_stats_free(s); return o; });
    op("vgg", [] { NXVGGAffineSequence *s = nx_vgg_affine_sequence_new(g_dir.c_str(), "wall"); if (!s) return S("error"); S o = s->name; nx_vgg_affine_sequence_free(s); return o; });
    op("gnuplot", [] { NXDataFrame *df = nx_data_frame_alloc(); nx_data_frame_add_column(df, NX_DCT_INT, "i"); nx_data_frame_append_row(df, 4); S o = out_of([&](FILE *f) { NXGNUPlot *g = nx_gnuplot_new(f, NX_FALSE); nx_gnuplot_send_command(g, "set title '%s'", "t"); nx_gnuplot_send_data_frame(g, df, "blk"); nx_gnuplot_free(g); }); nx_data_frame_free(df); return o; });
    op("graphics", [] { NXImage *im = nx_image_new_rgba_uc(20, 20); nx_image_set_zero(im); NXGC *gc = nx_gc_new(im); nx_gc_move_to(gc, 2, 2); nx_gc_line_to(gc, 15, 12); nx_gc_stroke(gc); nx_gc_free(gc); S o = img_str(im); nx_image_free(im); return o; });
    return v;
}
static void close_from(int fd) { for (int i = fd; i < fd + 64; ++i) close(i); }
static int next_fd() { int f = dup(1); close(f); return f; }

void mc_run() {
    g_dir = G.tmp; if (system(("mkdir -p '" + g_dir + "/dir' '" + g_dir + "/wall'; touch '" + g_dir + "/dir/a' '" + g_dir + "/dir/b' '" + g_dir + "/dir/c'").c_str())) abort();
    write_file(path("t.json"), "{\"x\": [1, 2, {\"y\": \"z\"}]}");
    g_img = new Src(64, 48, 3, false, false, [](int x, int y, int) { return tex(x, y); }); g_rgba = new Src(21, 17, 2, false, true, [](int x, int y, int c) { return (x * 9 + y * 5 + c * 60) % 256; }); g_flt = new Src(40, 33, 1, true, false, [](int x, int y, int) { return tex(x, y) / 255; });
    for (const char *e : {"p.pgm", "p.png", "p.jpg"}) nx_image_xsave(g_img->im, path(e).c_str()); for (const char *e : {"c.ppm", "c.png", "c.jpg"}) nx_image_xsave(g_rgba->im, path(e).c_str());
    for (int i = 2; i <= 6; ++i) write_file(g_dir + fmt("/wall/H1to%dp", i), "1 0 2\n0 1 3\n0 0 1\n");
    nx_uniform_sampler_instance(); nx_gaussian_sampler_instance();
    std::vector<Op> v = ops();
    for (auto &o : v) {
        // how many allocations a run without faults makes, and its result; twice: the second has no first-time initialisations
        S base; long n = 0; bool ok = true; for (int i = 0; i < 2; ++i) { inj_n = 0; inj_at = -1; int fd = next_fd(); ok = guarded([&] { inj_on = 1; base = o.f(); inj_on = 0; }); inj_on = 0; n = inj_n; if (next_fd() != fd) close_from(fd); beat(); }
        if (begin("without-faults")) { describe([&] { return S(o.name); }); step(); if (!ok || base == "error") fail("%s fails without any fault", o.name); state(mix(hash(base), n)); }
        if (!ok) continue;
        for (int rest = 0; rest < 2; ++rest) for (long k = 0; k < n; ++k) if (begin("faults")) {
            describe([&] { return fmt("%s: allocation %ld of %ld%s fails", o.name, k, n, rest ? " and all later ones" : ""); });
            inj_n = 0; inj_at = k; inj_rest = rest; int fd = next_fd(); S r; bool ret = guarded([&] { inj_on = 1; r = o.f(); inj_on = 0; }); inj_on = 0; inj_at = -1; close_from(fd); step();
            if (!ret && fatal_kind != 1) fail("%s with allocation %ld failing exits without a fatal error", o.name, k);
            if (ret && r != "error" && r != base) fail("%s with allocation %ld failing gives \"%s\" instead of an error or \"%s\"", o.name, k, esc(r).substr(0, 300).c_str(), esc(base).substr(0, 300).c_str());
            // afterwards everything works again
            if (!strcmp(o.name, "sampler-instances")) { nx_uniform_sampler_instance(); nx_gaussian_sampler_instance(); }
            S again; bool ok2 = guarded([&] { again = o.f(); }); if (!ok2 || again != base) fail("%s does not work after allocation %ld failed", o.name, k);
            state(mix(hash(o.name), mix(k, ret * 2 + rest)));
        }
    }
    // the allocation functions
    static const size_t SZ[] = {0, 1, 2, 7, 8, 15, 16, 17, 100, 255, 256, 4095, 4096, 4097, 65536, 1 << 20, (1 << 20) + 1};
    auto fill = [](void *p, size_t n, int s) { for (size_t i = 0; i < n; ++i) ((uchar *)p)[i] = (uchar)(i * 31 + s); };
    auto is = [](void *p, size_t n, int s) { for (size_t i = 0; i < n; ++i) if (((uchar *)p)[i] != (uchar)(i * 31 + s)) return false; return true; };
    for (size_t n : SZ) for (int fn = 0; fn < 5; ++fn) for (int flt = 0; flt < 2; ++flt) if (begin("allocators")) {
        static const char *N[] = {"nx_malloc", "nx_calloc", "nx_xmalloc", "nx_xcalloc", "nx_xrealloc"}; describe([&] { return fmt("%s of %zu bytes%s", N[fn], n, flt ? ", out of memory" : ""); }); step();
        void *p = nullptr; bool x = fn >= 2; inj_n = 0; inj_at = flt ? 0 : -1; inj_rest = true;
        bool ret = guarded([&] { inj_on = 1; switch (fn) { case 0: p = nx_malloc(n); break; case 1: p = n % 2 ? nx_calloc(n, 1) : nx_calloc(n / 2, 2); break; case 2: p = nx_xmalloc(n); break; case 3: p = n % 2 ? nx_xcalloc(1, n) : nx_xcalloc(n / 2, 2); break; default: p = nx_xrealloc(nullptr, n); } inj_on = 0; }); inj_on = 0; inj_at = -1;
        bool none = flt && n; // no memory for it
        if (none ? (x ? ret : !ret || p) : !ret || (n && !p)) fail("%s of %zu bytes %s memory %s", N[fn], n, none ? "without" : "with", !ret ? "is a fatal error" : p ? "returns a block" : "returns NULL");
        else if (!none && n) { if (fn == 1 || fn == 3) for (size_t i = 0; i < n; ++i) if (((uchar *)p)[i]) { fail("%s of %zu bytes: byte %zu is not zero", N[fn], n, i); break; } if ((uintptr_t)p % 16) fail("unaligned block"); fill(p, n, 3); }
        if (!none && p) nx_free(p); state(mix(n, fn * 2 + flt));
    }
    for (size_t a : SZ) for (size_t b : SZ) for (int flt = 0; flt < 2; ++flt) if (begin("reallocation")) {
        describe([&] { return fmt("%zu to %zu bytes%s", a, b, flt ? ", out of memory" : ""); }); step(); void *p = nx_xmalloc(a); fill(p, a, 5); void *q = nullptr; inj_n = 0; inj_at = flt ? 0 : -1; inj_rest = true; bool ret = guarded([&] { inj_on = 1; q = nx_xrealloc(p, b); inj_on = 0; }); inj_on = 0; inj_at = -1;
        if (flt && b) { if (ret) fail("reallocation of %zu bytes without memory is no error", b); else if (!is(p, a, 5)) fail("a failing reallocation changes the block"); nx_free(p); }
        else if (!ret || (b && !q)) fail("reallocation of %zu to %zu bytes fails", a, b);
        else { if (b && !is(q, std::min(a, b), 5)) fail("reallocation of %zu to %zu bytes changes the contents", a, b); if (b) { fill(q, b, 6); nx_free(q); } else if (q) nx_free(q); }
        state(mix(a, b * 2 + flt));
    }
    for (size_t al = 16; al <= 4096; al *= 2) for (size_t m = 1; m <= 40; ++m) for (int fn = 0; fn < 2; ++fn) for (int flt = 0; flt < 2; ++flt) if (begin("aligned")) {
        describe([&] { return fmt("%zu bytes aligned at %zu%s", m * al, al, flt ? ", out of memory" : ""); }); step(); void *p = nullptr; inj_n = 0; inj_at = flt ? 0 : -1; inj_rest = true; bool ret = guarded([&] { inj_on = 1; p = fn ? nx_xaligned_alloc(al, m * al) : nx_aligned_alloc(al, m * al); inj_on = 0; }); inj_on = 0; inj_at = -1;
        if (flt ? (fn ? ret : !ret || p) : !ret || !p || (uintptr_t)p % al) fail("%zu bytes aligned at %zu %s memory: %s", m * al, al, flt ? "without" : "with", ret ? p ? "a block" : "NULL" : "fatal error"); else if (!flt) { fill(p, m * al, 1); nx_free(p); }
        state(mix(al, m * 4 + fn * 2 + flt));
    }
    // sizes no machine has, and products that do not fit
    static const size_t BIG[] = {0, 1, 2, 3, 8, 1u << 16, (size_t)1 << 31, (size_t)1 << 32, ((size_t)1 << 32) + 1, (size_t)1 << 33, (size_t)1 << 48, (size_t)1 << 62, (size_t)1 << 63, ((size_t)1 << 63) + 1, SIZE_MAX / 2, SIZE_MAX / 2 + 2, SIZE_MAX / 3 + 1, SIZE_MAX / 8 + 1, SIZE_MAX - 1, SIZE_MAX};
    for (size_t a : BIG) for (size_t b : BIG) if (begin("huge")) {
        describe([&] { return fmt("%zu times %zu bytes", a, b); }); step(2); size_t t; bool over = __builtin_mul_overflow(a, b, &t) || t > HUGE_SZ; if (!over && t > (1 << 20)) continue; void *p = nullptr, *q = nullptr; bool r1 = guarded([&] { p = nx_calloc(a, b); }), r2 = guarded([&] { q = nx_xcalloc(a, b); });
        if (over ? !r1 || p || r2 : !r1 || !r2 || (t && (!p || !q))) fail("%zu times %zu zeroed bytes: nx_calloc %s, nx_xcalloc %s", a, b, !r1 ? "is a fatal error" : p ? "returns a block" : "returns NULL", !r2 ? "is a fatal error" : q ? "returns a block" : "returns NULL");
        if (p) nx_free(p); if (q) nx_free(q); state(mix(a, b));
    }
}
