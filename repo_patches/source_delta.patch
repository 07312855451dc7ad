From 9e792ab223097319f296331fca2fbb6bea314f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:27 +0000
Subject: [PATCH 01/84] fix: false and null JSON nodes get their own type

---
 src/nx_json_tree.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nx_json_tree.c b/src/nx_json_tree.c
index 669c302..5003dd6 100644
--- a/src/nx_json_tree.c
+++ b/src/nx_json_tree.c
@@ -186,12 +186,12 @@ struct NXJSONNode *nx_json_node_new_true()
 
 struct NXJSONNode *nx_json_node_new_false()
 {
-        return nx_json_node_new_constant(NX_JNT_TRUE);
+        return nx_json_node_new_constant(NX_JNT_FALSE);
 }
 
 struct NXJSONNode *nx_json_node_new_null()
 {
-        return nx_json_node_new_constant(NX_JNT_TRUE);
+        return nx_json_node_new_constant(NX_JNT_NULL);
 }
 
 void nx_json_tree_free(struct NXJSONNode *root)
-- 
2.43.0


From f9fba52e2a692a16ad9d5025633f31eb89fee988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:27 +0000
Subject: [PATCH 02/84] fix: loading CSV with strings_as_factors must terminate

---
 src/nx_data_frame.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_data_frame.c b/src/nx_data_frame.c
index 7238772..9e1f6ac 100644
--- a/src/nx_data_frame.c
+++ b/src/nx_data_frame.c
@@ -636,7 +636,7 @@ struct NXDataFrame *nx_data_frame_load_csv_stream(FILE *stream,
         struct NXDataFrame *df = nx_csv_parser_parse(cp);
 
         if (strings_as_factors) {
-                for (int col_id = 0; col_id < df->columns->size; ++i) {
+                for (int col_id = 0; col_id < df->columns->size; ++col_id) {
                         if (nx_data_frame_column(df, col_id)->type == NX_DCT_STRING)
                                 nx_data_frame_make_factor(df, col_id);
                 }
-- 
2.43.0


From bfbd7e62d8ee47bd8991d2d49583f38b99d06f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:27 +0000
Subject: [PATCH 03/84] fix: quote data frame labels the way the CSV reader
 expects them

---
 src/nx_data_frame.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_data_frame.c b/src/nx_data_frame.c
index 9e1f6ac..56d81a4 100644
--- a/src/nx_data_frame.c
+++ b/src/nx_data_frame.c
@@ -522,7 +522,7 @@ NXBool nx_data_frame_fprintf(const struct NXDataFrame *df, FILE *stream,
         int nc = nx_data_frame_n_columns(df);
         for (int i = 0; i < nc; ++i) {
                 const struct NXDataColumn *dc = nx_data_frame_column(df, i);
-                if (EOF == nx_fputs_readable(nx_data_column_label(dc), stream)) {
+                if (EOF == nx_fputs_double_quoted(nx_data_column_label(dc), stream)) {
                         NX_ERROR(NX_LOG_TAG, "Error printing label of data frame for column %d", i);
                         return NX_FALSE;
                 }
-- 
2.43.0


From d60193ea7256c8b7c8f65de7ac51c2cb8c548434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:27 +0000
Subject: [PATCH 04/84] fix: infer CSV integer columns in the base they are
 converted with

---
 src/nx_csv_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_csv_parser.c b/src/nx_csv_parser.c
index 0631856..ec88df9 100644
--- a/src/nx_csv_parser.c
+++ b/src/nx_csv_parser.c
@@ -41,7 +41,7 @@ static inline enum NXDataColumnType nx_csv_field_type_from_token_text(const char
                 return NX_DCT_BOOL;
 
         char *endptr;
-        long lv = strtol(text, &endptr, 0);
+        long lv = strtol(text, &endptr, 10);
         if (*endptr == '\0' && lv <= INT_MAX && lv >= INT_MIN)
                 return NX_DCT_INT;
 
-- 
2.43.0


From 7d3936dcfe4a064bbc5c5fbad2f48017efeab9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:27 +0000
Subject: [PATCH 05/84] fix: decode the \/ escape the lexer accepts

---
 src/nx_string.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nx_string.c b/src/nx_string.c
index a3acffc..a2d2144 100644
--- a/src/nx_string.c
+++ b/src/nx_string.c
@@ -165,6 +165,7 @@ char *nx_xstr_from_readable(size_t size, const char *readable)
                         case 't': *(p++) = '\t'; break;
                         case 'n': *(p++) = '\n'; break;
                         case '\\': *(p++) = '\\'; break;
+                        case '/': *(p++) = '/'; break;
                         case 'f': *(p++) = '\f'; break;
                         case 'b': *(p++) = '\b'; break;
                         case '"': *(p++) = '"'; break;
-- 
2.43.0


From 7e33a0c2f569878286fb4117d6dca75e0a6987e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:27 +0000
Subject: [PATCH 06/84] fix: do not read past the source lengths once all
 sources are consumed

---
 src/nx_string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_string.c b/src/nx_string.c
index a2d2144..adccac1 100644
--- a/src/nx_string.c
+++ b/src/nx_string.c
@@ -219,7 +219,7 @@ size_t nx_memncpy_multi(void *dest, int n_src, const void * const *src,
         NX_ASSERT_PTR(src_offset);
         NX_ASSERT_PTR(offset);
 
-        if (*offset > l_src[*src_offset]) {
+        if (*src_offset < n_src && *offset > l_src[*src_offset]) {
                 *offset = 0;
                 *src_offset += 1;
         }
-- 
2.43.0


From ebc3a817804789db48e7b903da93c9853554011c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:27 +0000
Subject: [PATCH 07/84] fix: do not mistake byte 0xFF for the end of the text
 in the lexer

---
 src/nx_lexer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nx_lexer.c b/src/nx_lexer.c
index 6df82be..4661758 100644
--- a/src/nx_lexer.c
+++ b/src/nx_lexer.c
@@ -143,7 +143,7 @@ int nx_lexer_consume(struct NXLexer *lex)
         if (lex->c == EOF)
                 return lex->c;
 
-        lex->c = lex->text[++lex->pos];
+        lex->c = (unsigned char)lex->text[++lex->pos];
         if (lex->c == '\0')
                 lex->c = EOF;
 
@@ -171,7 +171,7 @@ NXBool nx_lexer_match(struct NXLexer *lex, const char *s)
 
         int n = strlen(s);
         while (n--) {
-                if (lex->c == *s) {
+                if (lex->c == (unsigned char)*s) {
                         nx_lexer_consume(lex);
                 } else {
                         load_lexer_state(lex, &start_state);
-- 
2.43.0


From e9b4d66a29c022c38fa91ebc37efc06d43e586f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:27 +0000
Subject: [PATCH 08/84] fix: report errors detected while closing a stream

---
 src/nx_io.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nx_io.c b/src/nx_io.c
index 45c6161..864b5fe 100644
--- a/src/nx_io.c
+++ b/src/nx_io.c
@@ -50,7 +50,8 @@ void nx_xfclose(FILE *stream, const char *stream_label)
 
         int e = ferror(stream);
 
-        fclose(stream);
+        if (fclose(stream) != 0)
+                e = 1;
 
         if (e) {
                  NX_IO_FATAL(NX_LOG_TAG, "Error detected before closing stream %s",
@@ -78,7 +79,8 @@ NXResult nx_fclose(FILE *stream, const char *stream_label)
 
         int e = ferror(stream);
 
-        fclose(stream);
+        if (fclose(stream) != 0)
+                e = 1;
 
         if (e) {
                 NX_IO_ERROR(NX_LOG_TAG, "Error detected before closing stream %s",
-- 
2.43.0


From b3e43554e782b96c8a410271a4acefa8eca2f2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:27 +0000
Subject: [PATCH 09/84] fix: clamp float to uchar conversion to 0..255

---
 src/nx_image.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_image.c b/src/nx_image.c
index ba7cca4..88dcd1a 100644
--- a/src/nx_image.c
+++ b/src/nx_image.c
@@ -410,7 +410,7 @@ static void nx_image_convert_f32_to_uc(struct NXImage* dest, const struct NXImag
                 uchar *rdest = dest->data.uc + y * dest->row_stride;
                 for (int x = 0; x < dest->width; ++x) {
                         int value = rsrc[x] * 255.0f;
-                        value = nx_min_i(0, nx_max_i(255, value));
+                        value = nx_min_i(255, nx_max_i(0, value));
                         rdest[x] = value;
                 }
         }
-- 
2.43.0


From 9d8550dc8f19b8f4e238c3521ed2af1f88d5bbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:27 +0000
Subject: [PATCH 10/84] fix: image normalization must consider every sample for
 the maximum

---
 src/nx_image.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/nx_image.c b/src/nx_image.c
index 88dcd1a..651d36b 100644
--- a/src/nx_image.c
+++ b/src/nx_image.c
@@ -212,11 +212,12 @@ void nx_image_normalize_to_zero_one(struct NXImage *img, NXBool symmetric_around
         for (int y = 0; y < img->height; ++y) {
                 float *row = img->data.f32 + y*img->row_stride;
                 for (int x = 0; x < img->width; ++x) {
-                        for (int c = 0; c < nc; ++c)
+                        for (int c = 0; c < nc; ++c) {
                                 if (row[nc*x+c] < vmin)
                                         vmin = row[nc*x+c];
-                                else if (row[nc*x+c] > vmax)
+                                if (row[nc*x+c] > vmax)
                                         vmax = row[nc*x+c];
+                        }
                 }
         }
         /* NX_LOG("D", "min and max values are %.12f and %.12f", vmin, vmax); */
-- 
2.43.0


From 92d8634502dae7e1d3a84a2747bf0edff95e93e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:27 +0000
Subject: [PATCH 11/84] fix: use the source stride to index the source in the
 last row of deriv_y

---
 src/nx_image.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nx_image.c b/src/nx_image.c
index 651d36b..f1924be 100644
--- a/src/nx_image.c
+++ b/src/nx_image.c
@@ -1249,8 +1249,8 @@ void nx_image_deriv_x(struct NXImage *dest, const struct NXImage *src)
                         }                                               \
                 }                                                       \
                 for (int x = 0; x < dest->width; ++x) {                 \
-                        dest->data.f32[x + (src->height-1)*dest->row_stride] = 2.0f * (src->data.F[x + (src->height-1)*dest->row_stride] \
-                                                                                       - src->data.F[x + (src->height-2)*dest->row_stride])/S; \
+                        dest->data.f32[x + (src->height-1)*dest->row_stride] = 2.0f * (src->data.F[x + (src->height-1)*src->row_stride] \
+                                                                                       - src->data.F[x + (src->height-2)*src->row_stride])/S; \
                 }                                                       \
         }
 
-- 
2.43.0


From 36dd5e9c77972889b2ba8b97e2964ab0fe171222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:16 +0000
Subject: [PATCH 12/84] fix: image scaling must not sample outside of the
 source image

---
 src/nx_image.c | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/nx_image.c b/src/nx_image.c
index f1924be..e1b6cf8 100644
--- a/src/nx_image.c
+++ b/src/nx_image.c
@@ -553,20 +553,28 @@ void nx_image_scale_uc(struct NXImage *dest, const struct NXImage *src, float sc
                 int ypi = (int)yp;
                 float dy = yp - ypi;
 
+                if (ypi > src->height - 1)
+                        ypi = src->height - 1;
+
                 const uchar *sample_row = src->data.uc + ypi * src->row_stride;
+                int step_y = (ypi + 1 < src->height) ? src->row_stride : 0;
 
                 for (int x = 0; x < dest->width; ++x) {
                         float xp = x * inv_scale;
                         int xpi = (int)xp;
                         float dx = xp - xpi;
 
+                        if (xpi > src->width - 1)
+                                xpi = src->width - 1;
+
                         const uchar *sample = sample_row + xpi;
+                        int step_x = (xpi + 1 < src->width) ? 1 : 0;
 
                         float Ix0 = sample[0];
-                        float Ix1 = sample[1];
+                        float Ix1 = sample[step_x];
 
-                        float Iy0 = sample[src->row_stride];
-                        float Iy1 = sample[src->row_stride + 1];
+                        float Iy0 = sample[step_y];
+                        float Iy1 = sample[step_y + step_x];
 
                         short interp = (Ix0*(1.0f - dx) + Ix1*dx) * (1.0f - dy)
                                 + (Iy0*(1.0f - dx) + Iy1*dx) * dy;
@@ -639,20 +647,28 @@ void nx_image_scale_f32(struct NXImage *dest, const struct NXImage *src, float s
                 int ypi = (int)yp;
                 float dy = yp - ypi;
 
+                if (ypi > src->height - 1)
+                        ypi = src->height - 1;
+
                 const float *sample_row = src->data.f32 + ypi * src->row_stride;
+                int step_y = (ypi + 1 < src->height) ? src->row_stride : 0;
 
                 for (int x = 0; x < dest->width; ++x) {
                         float xp = x * inv_scale;
                         int xpi = (int)xp;
                         float dx = xp - xpi;
 
+                        if (xpi > src->width - 1)
+                                xpi = src->width - 1;
+
                         const float *sample = sample_row + xpi;
+                        int step_x = (xpi + 1 < src->width) ? 1 : 0;
 
                         float Ix0 = sample[0];
-                        float Ix1 = sample[1];
+                        float Ix1 = sample[step_x];
 
-                        float Iy0 = sample[src->row_stride];
-                        float Iy1 = sample[src->row_stride + 1];
+                        float Iy0 = sample[step_y];
+                        float Iy1 = sample[step_y + step_x];
 
                         float interp = (Ix0*(1.0f - dx) + Ix1*dx) * (1.0f - dy)
                                 + (Iy0*(1.0f - dx) + Iy1*dx) * dy;
-- 
2.43.0


From b16856c2bd3bca8faa7e38483742b71cb52085c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:16 +0000
Subject: [PATCH 13/84] fix: order integers by comparison, their difference may
 overflow

---
 include/virg/nexus/nx_math.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/virg/nexus/nx_math.h b/include/virg/nexus/nx_math.h
index 0ff585c..cb74556 100644
--- a/include/virg/nexus/nx_math.h
+++ b/include/virg/nexus/nx_math.h
@@ -102,7 +102,7 @@ int nx_compare_int_incr(const void *i0p, const void *i1p)
         int i0 = *(int *)i0p;
         int i1 = *(int *)i1p;
 
-        return i0 - i1;
+        return (i0 > i1) - (i0 < i1);
 }
 
 __NX_END_DECL
-- 
2.43.0


From 3f7d83d6b04cfaf165d5bfa2665003d4aea4e194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:16 +0000
Subject: [PATCH 14/84] fix: integer median and quartiles must not overflow

---
 src/nx_statistics.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/nx_statistics.c b/src/nx_statistics.c
index 282ade1..491aea8 100644
--- a/src/nx_statistics.c
+++ b/src/nx_statistics.c
@@ -135,17 +135,17 @@ void nx_istatistics_1d(struct NXStatistics1D *stats, int n, int *x)
                         stats->lower_quartile = x[half_half_n];
                         stats->upper_quartile = x[half_n + half_half_n + 1];
                 } else {
-                        stats->lower_quartile = (x[half_half_n - 1] + x[half_half_n]) / 2.0;
-                        stats->upper_quartile = (x[half_n + half_half_n] + x[half_n + half_half_n + 1]) / 2.0;
+                        stats->lower_quartile = ((double)x[half_half_n - 1] + x[half_half_n]) / 2.0;
+                        stats->upper_quartile = ((double)x[half_n + half_half_n] + x[half_n + half_half_n + 1]) / 2.0;
                 }
         } else {
-                stats->median = (x[half_n - 1] + x[half_n]) / 2.0;
+                stats->median = ((double)x[half_n - 1] + x[half_n]) / 2.0;
                 if (half_n & 1) {
                         stats->lower_quartile = x[half_half_n];
                         stats->upper_quartile = x[half_n + half_half_n];
                 } else {
-                        stats->lower_quartile = (x[half_half_n - 1] + x[half_half_n]) / 2.0;
-                        stats->upper_quartile = (x[half_n + half_half_n - 1] + x[half_n + half_half_n]) / 2.0;
+                        stats->lower_quartile = ((double)x[half_half_n - 1] + x[half_half_n]) / 2.0;
+                        stats->upper_quartile = ((double)x[half_n + half_half_n - 1] + x[half_n + half_half_n]) / 2.0;
                 }
         }
         stats->interquartile_range = stats->upper_quartile - stats->lower_quartile;
-- 
2.43.0


From 457d6455d18469b1e252626d8a6aa4361f4ab408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:16 +0000
Subject: [PATCH 15/84] fix: count the edges of adjacency list graphs

---
 src/nx_graph.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nx_graph.c b/src/nx_graph.c
index 777811d..c1b2b9a 100644
--- a/src/nx_graph.c
+++ b/src/nx_graph.c
@@ -152,8 +152,10 @@ void nx_graph_insert_adj_lst(struct NXGraphAdjLst *g,
         struct NXGraphEdge *e = nx_graph_edge_list_seach(g->edges[v], w);
         if (e)
                 e->weight = weight;
-        else
+        else {
                 g->edges[v] = nx_graph_edge_new(w, weight, g->edges[v]);
+                g->n_e++;
+        }
 
         e = nx_graph_edge_list_seach(g->edges[w], v);
         if (e)
-- 
2.43.0


From 6edde58d3a556ae8a9641ee396c54c5935b22c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:16 +0000
Subject: [PATCH 16/84] fix: pass BRIEF size and radius in order when reading
 an extractor

---
 src/nx_brief_extractor.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_brief_extractor.c b/src/nx_brief_extractor.c
index ed3a74b..4386371 100644
--- a/src/nx_brief_extractor.c
+++ b/src/nx_brief_extractor.c
@@ -373,7 +373,7 @@ NXResult nx_brief_extractor_read(struct NXBriefExtractor *be, FILE *stream)
         if (fread(&n_octets, sizeof(n_octets), 1, stream) != 1)
                 return NX_FAIL;
 
-        nx_brief_extractor_resize(be, radius, n_octets);
+        nx_brief_extractor_resize(be, n_octets, radius);
 
         int n_offsets = be->n_octets*4*8;
         if (fread(be->offsets, sizeof(*be->offsets), n_offsets, stream) != (size_t)n_offsets)
-- 
2.43.0


From 7327caff88816cd09ae28b31b665152a53e6b103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:16 +0000
Subject: [PATCH 17/84] fix: keep all 64 bits of the keypoint id in JSON

---
 src/nx_json_bundle.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nx_json_bundle.c b/src/nx_json_bundle.c
index bcf151d..4a9baa0 100644
--- a/src/nx_json_bundle.c
+++ b/src/nx_json_bundle.c
@@ -126,7 +126,7 @@ struct NXJSONNode *nx_json_bundle_keypoint(const struct NXKeypoint* key)
         nx_json_object_add(jkey, "sigma", nx_json_bundle_double(key->sigma));
         nx_json_object_add(jkey, "score", nx_json_bundle_double(key->score));
         nx_json_object_add(jkey, "ori", nx_json_bundle_double(key->ori));
-        nx_json_object_add(jkey, "id", nx_json_bundle_int(key->id));
+        nx_json_object_add(jkey, "id", nx_json_bundle_size_t(key->id));
 
         return jkey;
 }
@@ -282,7 +282,7 @@ struct NXKeypoint nx_json_unbundle_keypoint(struct NXJSONNode* node)
         key.sigma = nx_json_unbundle_double(nx_json_object_fget(node, "sigma",  NX_JNT_FPNUMBER));
         key.score = nx_json_unbundle_double(nx_json_object_fget(node, "score",  NX_JNT_FPNUMBER));
         key.ori = nx_json_unbundle_double(nx_json_object_fget(node, "ori",  NX_JNT_FPNUMBER));
-        key.id = nx_json_unbundle_int(nx_json_object_fget(node, "id",  NX_JNT_INTEGER));
+        key.id = nx_json_unbundle_size_t(nx_json_object_fget(node, "id",  NX_JNT_INTEGER));
 
         return key;
 }
-- 
2.43.0


From e71a3aa8c0cb6bd2e1606319f5a8f413058d9210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:16 +0000
Subject: [PATCH 18/84] fix: homography minimal samples must be distinct

---
 src/nx_homography.c      | 2 +-
 src/nx_usac_homography.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nx_homography.c b/src/nx_homography.c
index eb8d915..46c6195 100644
--- a/src/nx_homography.c
+++ b/src/nx_homography.c
@@ -270,7 +270,7 @@ static inline void nx_select_prosac_candidates(int n_top, int corr_ids[4])
 
         do {
             corr_ids[3] = (int)(NX_UNIFORM_SAMPLE_S*n_top);
-        } while(corr_ids[3]==corr_ids[1] || corr_ids[3]==corr_ids[1] || corr_ids[3]==corr_ids[0]);
+        } while(corr_ids[3]==corr_ids[2] || corr_ids[3]==corr_ids[1] || corr_ids[3]==corr_ids[0]);
 }
 
 int nx_homography_estimate_ransac(double *h, int n_corr, struct NXPointMatch2D *corr_list, double inlier_tolerance, int max_n_iter)
diff --git a/src/nx_usac_homography.c b/src/nx_usac_homography.c
index 6f6f96c..b5b3f2f 100644
--- a/src/nx_usac_homography.c
+++ b/src/nx_usac_homography.c
@@ -61,7 +61,7 @@ void nx_usac_homography_sampling(int *sample_ids, void *data)
 
         do {
             sample_ids[3] = (int)(NX_UNIFORM_SAMPLE_S * hdata->n_top_hypo);
-        } while(sample_ids[3]==sample_ids[1] || sample_ids[3]==sample_ids[1] || sample_ids[3]==sample_ids[0]);
+        } while(sample_ids[3]==sample_ids[2] || sample_ids[3]==sample_ids[1] || sample_ids[3]==sample_ids[0]);
 }
 
 NXBool nx_usac_check_homography_sample(const int *sample_ids,
-- 
2.43.0


From 4304a645c783638a9ef80645eebcf8b04f855e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:16 +0000
Subject: [PATCH 19/84] fix: fundamental matrix minimal samples must be
 distinct

---
 src/nx_epipolar.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_epipolar.c b/src/nx_epipolar.c
index 1273bb1..d7af88e 100644
--- a/src/nx_epipolar.c
+++ b/src/nx_epipolar.c
@@ -195,7 +195,7 @@ static inline void nx_select_prosac_candidates(int n_top, int corr_ids[8])
         corr_ids[0] = (int)(NX_UNIFORM_SAMPLE_S*n_top);
         for (int i = 1; i < 8; ++i) {
                 corr_ids[i] = (int)(NX_UNIFORM_SAMPLE_S*n_top);
-                for (int j = i-1; j > 0; --j)
+                for (int j = i-1; j >= 0; --j)
                         if (corr_ids[i] == corr_ids[j]) {
                                 --i;
                                 break;
-- 
2.43.0


From 008e3dface9704dc1999e565b7302654f1fa624b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:16 +0000
Subject: [PATCH 20/84] fix: single precision uniform samples stay below one

---
 src/nx_uniform_sampler.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nx_uniform_sampler.c b/src/nx_uniform_sampler.c
index fa94b8f..7482bee 100644
--- a/src/nx_uniform_sampler.c
+++ b/src/nx_uniform_sampler.c
@@ -25,6 +25,7 @@
  */
 #include "virg/nexus/nx_uniform_sampler.h"
 
+#include <float.h>
 #include <stdlib.h>
 #include <time.h>
 
@@ -113,7 +114,9 @@ void nx_uniform_sampler_fill64(struct NXUniformSampler *sampler, int n, uint64_t
 
 float nx_uniform_sampler_sample_s(struct NXUniformSampler *sampler)
 {
-        return sfmt_genrand_real2(&sampler->state);
+        // rounding to single precision may reach one
+        float u = sfmt_genrand_real2(&sampler->state);
+        return u < 1.0f ? u : 1.0f - FLT_EPSILON/2.0f;
 }
 
 double nx_uniform_sampler_sample_d(struct NXUniformSampler *sampler)
-- 
2.43.0


From e6814f87ee6715ca5405ff431b02395e2f87916b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:16 +0000
Subject: [PATCH 21/84] fix: reject the zero radius in Gaussian sampling

---
 src/nx_gaussian_sampler.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nx_gaussian_sampler.c b/src/nx_gaussian_sampler.c
index 0acab6b..24120e1 100644
--- a/src/nx_gaussian_sampler.c
+++ b/src/nx_gaussian_sampler.c
@@ -129,7 +129,7 @@ void nx_gaussian_sampler_sample_s(struct NXGaussianSampler *sampler,
                         v2 = 2.0f * u2 - 1.0f;
 
                         s = v1 * v1 + v2 * v2;
-                } while(s >= 1.0f);
+                } while(s >= 1.0f || s == 0.0f);
 
                 common = sigma * sqrtf(-2.0f * logf(s) / s);
                 *s_ptr = common * v1 + mean;
@@ -147,7 +147,7 @@ void nx_gaussian_sampler_sample_s(struct NXGaussianSampler *sampler,
                         v2 = 2.0f * u2 - 1.0f;
 
                         s = v1 * v1 + v2 * v2;
-                } while(s >= 1.0f);
+                } while(s >= 1.0f || s == 0.0f);
 
                 *s_ptr = sigma * sqrtf(-2.0f * logf(s) / s) * v1 + mean;
         }
@@ -174,7 +174,7 @@ void nx_gaussian_sampler_sample_d(struct NXGaussianSampler *sampler,
                         v2 = 2.0 * u2 - 1.0;
 
                         s = v1 * v1 + v2 * v2;
-                } while(s >= 1.0);
+                } while(s >= 1.0 || s == 0.0);
 
                 common = sigma * sqrt(-2.0 * log(s) / s);
                 *s_ptr = common * v1 + mean;
@@ -192,7 +192,7 @@ void nx_gaussian_sampler_sample_d(struct NXGaussianSampler *sampler,
                         v2 = 2.0 * u2 - 1.0;
 
                         s = v1 * v1 + v2 * v2;
-                } while(s >= 1.0);
+                } while(s >= 1.0 || s == 0.0);
 
                 *s_ptr = sigma * sqrt(-2.0 * log(s) / s) * v1 + mean;
         }
-- 
2.43.0


From b91842def2293384e6898f6b0e55604c8b75fd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:16 +0000
Subject: [PATCH 22/84] fix: add the alpha channel when loading RGB and palette
 PNG files as RGBA

---
 src/nx_image_io_png.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/nx_image_io_png.c b/src/nx_image_io_png.c
index 3b25082..ba975a0 100644
--- a/src/nx_image_io_png.c
+++ b/src/nx_image_io_png.c
@@ -171,6 +171,11 @@ static NXResult load_as_png(struct NXImage *img, FILE *fin,
                         png_set_gray_to_rgb(png_ptr);
                         png_set_add_alpha(png_ptr, 255, PNG_FILLER_AFTER);
                 }
+
+                if (color_type == PNG_COLOR_TYPE_RGB ||
+                    color_type == PNG_COLOR_TYPE_PALETTE) {
+                        png_set_add_alpha(png_ptr, 255, PNG_FILLER_AFTER);
+                }
         } else {
                 if (color_type == PNG_COLOR_TYPE_GRAY ||
                     color_type == PNG_COLOR_TYPE_GA) {
-- 
2.43.0


From fd7c722f7c7e3ee7949352fbbdaff70d1f009963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:55 +0000
Subject: [PATCH 23/84] fix: interpolate warped images from the pixel to the
 left and above

---
 src/nx_image_warp.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/nx_image_warp.c b/src/nx_image_warp.c
index f33cfde..525db1d 100644
--- a/src/nx_image_warp.c
+++ b/src/nx_image_warp.c
@@ -62,8 +62,8 @@ void nx_image_warp_affine_bilinear(int dest_w, int dest_h, uchar *dest, int dest
                                          /* x, y, xp, yp); */
                         /* } */
 
-                        int xpi = xp;
-                        int ypi = yp;
+                        int xpi = floorf(xp);
+                        int ypi = floorf(yp);
 
                         float u = xp-xpi;
                         float v = yp-ypi;
@@ -161,8 +161,8 @@ static void nx_image_rotate45_uc(struct NXImage *dest, struct NXImage *src, NXBo
                 float yp = y*SQRT2_INV + TY;
                 for (int x = 0; x < dest->width;
                      ++x, xp += SQRT2_INV, yp -= CW*SQRT2_INV) {
-                        int xpi = xp;
-                        int ypi = yp;
+                        int xpi = floorf(xp);
+                        int ypi = floorf(yp);
 
                         float u = xp-xpi;
                         float v = yp-ypi;
@@ -212,8 +212,8 @@ static void nx_image_rotate45_f32(struct NXImage *dest, struct NXImage *src, NXB
                 float yp = y*SQRT2_INV + TY;
                 for (int x = 0; x < dest->width;
                      ++x, xp += SQRT2_INV, yp -= CW*SQRT2_INV) {
-                        int xpi = xp;
-                        int ypi = yp;
+                        int xpi = floorf(xp);
+                        int ypi = floorf(yp);
 
                         float u = xp-xpi;
                         float v = yp-ypi;
-- 
2.43.0


From b523eecf7105d0dbb03e4b9b96125e52b63d6058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:55 +0000
Subject: [PATCH 24/84] fix: mirrored warp background must stay inside of the
 source image

---
 src/nx_image_warp.c | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/nx_image_warp.c b/src/nx_image_warp.c
index 525db1d..964c469 100644
--- a/src/nx_image_warp.c
+++ b/src/nx_image_warp.c
@@ -32,6 +32,19 @@
 #include "virg/nexus/nx_log.h"
 #include "virg/nexus/nx_uniform_sampler.h"
 
+static inline int nx_mirror_index(int i, int n)
+{
+        if (n <= 1)
+                return 0;
+
+        int period = 2 * n - 2;
+        i %= period;
+        if (i < 0)
+                i += period;
+
+        return i < n ? i : period - i;
+}
+
 void nx_image_warp_affine_bilinear(int dest_w, int dest_h, uchar *dest, int dest_stride,
                                    int src_w, int src_h, const uchar *src, int src_stride,
                                    const float *t_dest2src, enum NXImageWarpBackgroundMode bg_mode)
@@ -42,8 +55,6 @@ void nx_image_warp_affine_bilinear(int dest_w, int dest_h, uchar *dest, int dest
 
         const int LAST_X = src_w - 1;
         const int LAST_Y = src_h - 1;
-        const int W2 = src_w * 2 - 2;
-        const int H2 = src_h * 2 - 2;
 
         uchar bg_fixed = 0;
         if (bg_mode == NX_IMAGE_WARP_WHITE)
@@ -108,20 +119,9 @@ void nx_image_warp_affine_bilinear(int dest_w, int dest_h, uchar *dest, int dest
                                 }
                                 break;
                         case NX_IMAGE_WARP_MIRROR:
-                                if (idx[0] < 0) {
-                                        if (idx[0] < 0) idx[0] =  -idx[0] - W2 * (-idx[0] / W2);
-                                        if (idx[1] < 0) idx[1] =  -idx[1] - W2 * (-idx[1] / W2);
-                                } else if (idx[0] >= LAST_X) {
-                                        if (idx[0] >= src_w) idx[0] = W2 - idx[0] - W2 * (idx[0] / W2);
-                                        if (idx[1] >= src_w) idx[1] = W2 - idx[1] - W2 * (idx[1] / W2);
-                                }
-
-                                if (idy[0] < 0) {
-                                        if (idy[0] < 0) idy[0] =  -idy[0] - H2 * (-idy[0] / H2);
-                                        if (idy[1] < 0) idy[1] =  -idy[1] - H2 * (-idy[1] / H2);
-                                } else if (idy[0] >= LAST_Y) {
-                                        if (idy[0] >= src_h) idy[0] = H2 - idy[0] - H2 * (idy[0] / H2);
-                                        if (idy[1] >= src_h) idy[1] = H2 - idy[1] - H2 * (idy[1] / H2);
+                                for (int k = 0; k < 2; ++k) {
+                                        idx[k] = nx_mirror_index(idx[k], src_w);
+                                        idy[k] = nx_mirror_index(idy[k], src_h);
                                 }
                                 break;
                         }
-- 
2.43.0


From a4a4e08f507acddde5ba8d8eb58f224efe05b1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:55 +0000
Subject: [PATCH 25/84] fix: do not truncate rotated floating point images to
 integers

---
 src/nx_image_warp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_image_warp.c b/src/nx_image_warp.c
index 964c469..55a677a 100644
--- a/src/nx_image_warp.c
+++ b/src/nx_image_warp.c
@@ -230,7 +230,7 @@ static void nx_image_rotate45_f32(struct NXImage *dest, struct NXImage *src, NXB
                         }
                         const float *p0 = src->data.f32 + idy[0]*src->row_stride;
                         const float *p1 = src->data.f32 + idy[1]*src->row_stride;
-                        int I = vp*(up*p0[idx[0]] + u*p0[idx[1]])
+                        float I = vp*(up*p0[idx[0]] + u*p0[idx[1]])
                                 + v*(up*p1[idx[0]] + u*p1[idx[1]]);
 
                         drow[x] = I;
-- 
2.43.0


From 7dcf6ae44957793d8a419850cee0c68cd9abcec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:55 +0000
Subject: [PATCH 26/84] fix: string array search must skip unset elements

---
 src/nx_string_array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_string_array.c b/src/nx_string_array.c
index 68fff42..f847d96 100644
--- a/src/nx_string_array.c
+++ b/src/nx_string_array.c
@@ -179,7 +179,7 @@ int nx_string_array_find(const struct NXStringArray *sa, const char *s)
         NX_ASSERT_PTR(s);
 
         for (int i = 0; i < sa->size; ++i)
-                if (strcmp(s, sa->elems[i]) == 0)
+                if (sa->elems[i] != NULL && strcmp(s, sa->elems[i]) == 0)
                         return i;
 
         return -1;
-- 
2.43.0


From e22ef1a59f06843098a342b87db714630c78979b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:48 +0000
Subject: [PATCH 27/84] fix: triangulation must not write past the points the
 caller asked for

---
 src/nx_pinhole.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_pinhole.c b/src/nx_pinhole.c
index 138ff35..438b32b 100644
--- a/src/nx_pinhole.c
+++ b/src/nx_pinhole.c
@@ -144,7 +144,7 @@ int nx_pinhole_triangulate(int n_pt, float *X, int *corr_ids,
         double U[16];
         double S[4];
         int pt_i = 0;
-        for (int i = 0; i < n_corr; ++i) {
+        for (int i = 0; i < n_corr && pt_i < n; ++i) {
                 if (corr_list[i].is_inlier) {
                         nx_triangulation_constraints_from_corr(&A[0],
                                                                corr_list + i,
-- 
2.43.0


From 0092826c3b85163d2f5239f56cc74c377c558825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:48 +0000
Subject: [PATCH 28/84] fix: robust estimation without a single inlier must not
 return garbage

---
 src/nx_epipolar.c   | 3 +++
 src/nx_homography.c | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/nx_epipolar.c b/src/nx_epipolar.c
index d7af88e..ca8eb1c 100644
--- a/src/nx_epipolar.c
+++ b/src/nx_epipolar.c
@@ -257,6 +257,9 @@ int nx_fundamental_estimate_ransac(double *F, int n_corr,
                 }
         }
 
+        if (n_inliers_best == 0)
+                return 0;
+
         // reestimate with all inliers and relabel inlier until it does not
         // improve much (by 5)
         memcpy(F, F_best, 9*sizeof(F[0]));
diff --git a/src/nx_homography.c b/src/nx_homography.c
index 46c6195..2299526 100644
--- a/src/nx_homography.c
+++ b/src/nx_homography.c
@@ -325,6 +325,9 @@ int nx_homography_estimate_ransac(double *h, int n_corr, struct NXPointMatch2D *
             }
         }
 
+        if (n_inliers_best == 0)
+            return 0;
+
         // reestimate with all inliers and relabel inlier until it does not improve much (by 5)
         memcpy(h, h_best, 9*sizeof(h[0]));
         n_inliers_best = nx_homography_mark_inliers(h_best, n_corr, corr_list, inlier_tolerance);
-- 
2.43.0


From 2e9b9fff0869a0e1ad3edf7fb12cbd73825c42f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:48 +0000
Subject: [PATCH 29/84] fix: minimal DLT solutions have a zero ninth singular
 value

---
 src/nx_epipolar.c   | 2 +-
 src/nx_homography.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nx_epipolar.c b/src/nx_epipolar.c
index ca8eb1c..dac6079 100644
--- a/src/nx_epipolar.c
+++ b/src/nx_epipolar.c
@@ -75,7 +75,7 @@ static inline void nx_fundamental_constraints_from_corr(double *rcons, const str
 static inline double nx_fundamental_svd_solve(double *F, int n_corr, double *A)
 {
         double U[9*9];
-        double S[9];
+        double S[9] = { 0.0 };
         nx_dsvd_us(&U[0], 9, &S[0], 9, n_corr, A, 9);
 
         F[0] = U[9*8+0];
diff --git a/src/nx_homography.c b/src/nx_homography.c
index 2299526..1655cf0 100644
--- a/src/nx_homography.c
+++ b/src/nx_homography.c
@@ -198,7 +198,7 @@ static inline void nx_homography_constraints_from_corr(double *rcons, const stru
 static inline double nx_homography_svd_solve(double *h, int n_corr, double *A)
 {
         double U[9*9];
-        double S[9];
+        double S[9] = { 0.0 };
         nx_dsvd_us(&U[0], 9, &S[0], 9, 2*n_corr, A, 9);
 
         h[0] = U[9*8+0];
-- 
2.43.0


From e5a3478aa97d42619b997d7ec8a967382a62ff60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:48 +0000
Subject: [PATCH 30/84] fix: antialiased downsampling of images smaller than
 the kernel

---
 src/nx_image.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/nx_image.c b/src/nx_image.c
index e1b6cf8..8077e2a 100644
--- a/src/nx_image.c
+++ b/src/nx_image.c
@@ -848,8 +848,13 @@ void nx_image_upsample(struct NXImage *dest, const struct NXImage *src)
                 for (int y = 0; y < dest->height; ++y) {                \
                         const T *src_row = src->data.F + y * src->row_stride; \
                         T *dest_row = dest->data.F + y * dest->row_stride; \
-                        dest_row[0] = (2*src_row[2] + 12*src_row[1]     \
+                        if (dest->width < 1)                            \
+                                break;                                  \
+                        dest_row[0] = (2*src_row[src->width > 2 ? 2 : 0] \
+                                       + 12*src_row[1]                  \
                                        + 11 * src_row[0]) * norm_f;     \
+                        if (dest->width < 2)                            \
+                                continue;                               \
                         for (int x = 1; x < dest->width-1; ++x) {       \
                                 float sum = src_row[2*x-2] + src_row[2*x+2] \
                                         + 6 * (src_row[2*x-1] + src_row[2*x+1]) \
@@ -904,8 +909,13 @@ void nx_image_downsample_aa_x(struct NXImage *dest, const struct NXImage *src)
                 for (int x = 0; x < dest->width; ++x) {                 \
                         const T *src_col = src->data.F + x;        \
                         T *dest_col = dest->data.F + x;            \
-                        dest_col[0] = (2*src_col[2*ss] + 12 * src_col[ss] \
+                        if (dest->height < 1)                           \
+                                break;                                  \
+                        dest_col[0] = (2*src_col[src->height > 2 ? 2*ss : 0] \
+                                       + 12 * src_col[ss]               \
                                        + 11 * src_col[0]) * norm_f;     \
+                        if (dest->height < 2)                           \
+                                continue;                               \
                         for (int y = 1; y < dest->height-1; ++y) {      \
                                 int yds = y*dest->row_stride;           \
                                 float sum = src_col[(2*y-2)*ss] + src_col[(2*y+2)*ss] \
-- 
2.43.0


From 2ad19063d5a97bdc67822e3be8bcf2a258d34610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:48 +0000
Subject: [PATCH 31/84] fix: load PNM headers with comments without aborting
 variants too

---
 src/nx_image_io_pnm.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/nx_image_io_pnm.c b/src/nx_image_io_pnm.c
index b2b66ad..78b70a9 100644
--- a/src/nx_image_io_pnm.c
+++ b/src/nx_image_io_pnm.c
@@ -258,6 +258,18 @@ NXResult nx_image_load_pnm(struct NXImage *img, const char *filename,
                 pnm_type = NX_IMAGE_RGBA;
         }
 
+        int c = fgetc(pnm);
+        while (c == ' ' || c == '\n' || c == '\t') {
+                c = fgetc(pnm);
+        }
+
+        while (c == '#') {
+                while (c != '\n' && c != EOF)
+                        c = fgetc(pnm);
+                c = fgetc(pnm);
+        }
+        ungetc(c, pnm);
+
         int pnm_width;
         int pnm_height;
         int pnm_levels;
@@ -268,15 +280,13 @@ NXResult nx_image_load_pnm(struct NXImage *img, const char *filename,
                 return NX_FAIL;
         }
 
-        // Skip a new line
-        char buffer[256];
-        if (fgets(buffer, sizeof(buffer), pnm) == NULL) {
+        // Skip a single white space character
+        if (fgetc(pnm) == EOF) {
                 NX_IO_ERROR(NX_LOG_TAG, "Error reading from %s", filename);
                 fclose(pnm);
                 return NX_FAIL;
         }
 
-
         enum NXImageType img_type;
         switch (mode) {
         case NX_IMAGE_LOAD_GRAYSCALE:
-- 
2.43.0


From a815fdf16512bebcd4d8961472d487a35d702032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:48 +0000
Subject: [PATCH 32/84] fix: reject PNM files with negative sizes

---
 src/nx_image_io_pnm.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/nx_image_io_pnm.c b/src/nx_image_io_pnm.c
index 78b70a9..04e245e 100644
--- a/src/nx_image_io_pnm.c
+++ b/src/nx_image_io_pnm.c
@@ -204,6 +204,8 @@ void nx_image_xload_pnm(struct NXImage *img, const char *filename,
         if (fscanf(pnm, "%d %d %d", &pnm_width, &pnm_height, &pnm_levels) != 3) {
                 NX_IO_FATAL(NX_LOG_TAG, "Could not read image attributes from %s", filename);
         }
+        if (pnm_width < 0 || pnm_height < 0)
+                NX_FATAL(NX_LOG_TAG, "Invalid image size %dx%d in %s", pnm_width, pnm_height, filename);
         c = fgetc(pnm);
 
         enum NXImageType img_type;
@@ -279,6 +281,11 @@ NXResult nx_image_load_pnm(struct NXImage *img, const char *filename,
                 fclose(pnm);
                 return NX_FAIL;
         }
+        if (pnm_width < 0 || pnm_height < 0) {
+                NX_ERROR(NX_LOG_TAG, "Invalid image size %dx%d in %s", pnm_width, pnm_height, filename);
+                fclose(pnm);
+                return NX_FAIL;
+        }
 
         // Skip a single white space character
         if (fgetc(pnm) == EOF) {
-- 
2.43.0


From 1a3e002532759835651717b3870433be6b40eb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:33 +0000
Subject: [PATCH 33/84] fix: CSV numbers below the normal range are numbers

---
 src/nx_csv_parser.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/nx_csv_parser.c b/src/nx_csv_parser.c
index ec88df9..e4e5589 100644
--- a/src/nx_csv_parser.c
+++ b/src/nx_csv_parser.c
@@ -29,6 +29,7 @@
 #include <string.h>
 #include <limits.h>
 #include <errno.h>
+#include <math.h>
 
 #include "virg/nexus/nx_alloc.h"
 #include "virg/nexus/nx_assert.h"
@@ -46,8 +47,8 @@ static inline enum NXDataColumnType nx_csv_field_type_from_token_text(const char
                 return NX_DCT_INT;
 
         errno = 0;
-        strtod(text, &endptr);
-        if (errno != ERANGE && *endptr == '\0')
+        double dv = strtod(text, &endptr);
+        if ((errno != ERANGE || fabs(dv) != HUGE_VAL) && *endptr == '\0')
                 return NX_DCT_DOUBLE;
 
         return NX_DCT_STRING;
-- 
2.43.0


From 25576cc601c994ea501420c2fc65d0acebdca736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:56 +0000
Subject: [PATCH 34/84] fix: replacing a string by (a part of) itself must not
 read freed memory

---
 src/nx_data_frame.c   | 3 ++-
 src/nx_string.c       | 8 +++-----
 src/nx_string_array.c | 3 ++-
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/nx_data_frame.c b/src/nx_data_frame.c
index 56d81a4..86071e9 100644
--- a/src/nx_data_frame.c
+++ b/src/nx_data_frame.c
@@ -445,8 +445,9 @@ void nx_data_frame_set_string(struct NXDataFrame *df, int row_id, int col_id,
 
         struct NXDataColumn *dc = df->columns->elems[col_id];
         CHECK_DATA_COLUMN_TYPE(dc,NX_DCT_STRING);
+        char *elem_ptr = nx_strdup(value);
         NA_DATA_FRAME_ELEMENT(dc,row_id);
-        dc->elems[row_id] = nx_strdup(value);
+        dc->elems[row_id] = (void *)elem_ptr;
 }
 
 void nx_data_frame_set_int(struct NXDataFrame *df, int row_id, int col_id,
diff --git a/src/nx_string.c b/src/nx_string.c
index adccac1..dd107f3 100644
--- a/src/nx_string.c
+++ b/src/nx_string.c
@@ -49,12 +49,10 @@ char *nx_strdup(const char *s)
 
 void nx_strredup(char **dest, const char *src)
 {
-        nx_free(*dest);
+        char *cpy = (src == NULL) ? NULL : nx_strdup(src);
 
-        if (src == NULL)
-                *dest = NULL;
-        else
-                *dest = nx_strdup(src);
+        nx_free(*dest);
+        *dest = cpy;
 }
 
 char *nx_fstr(const char* format, ...)
diff --git a/src/nx_string_array.c b/src/nx_string_array.c
index f847d96..c6127ed 100644
--- a/src/nx_string_array.c
+++ b/src/nx_string_array.c
@@ -139,8 +139,9 @@ void nx_string_array_vsetf(struct NXStringArray *sa, int id, const char *fmt, va
         NX_ASSERT(id >= 0 && id < sa->size);
         NX_ASSERT_PTR(fmt);
 
+        char *s = nx_vfstr(fmt, args);
         nx_free(sa->elems[id]);
-        sa->elems[id] = nx_vfstr(fmt, args);
+        sa->elems[id] = s;
 }
 
 int nx_string_array_append(struct NXStringArray *sa, const char *s)
-- 
2.43.0


From 77a949c247a6c54de3a5a30324286d997ca8378f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:05 +0000
Subject: [PATCH 35/84] fix: respect the default value of boolean options in
 pyvirg

---
 pyvirg/virg/nexus/options.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyvirg/virg/nexus/options.py b/pyvirg/virg/nexus/options.py
index fc487aa..1e736cb 100644
--- a/pyvirg/virg/nexus/options.py
+++ b/pyvirg/virg/nexus/options.py
@@ -36,6 +36,7 @@ class OptionItem:
         names = filter(lambda x: x is not None, names)
         if self.type_of is bool:
             parser.add_argument(*names, action='store_true',
+                                default=bool(self.default_value),
                                 help=self.help_str)
         else:
             parser.add_argument(*names, type=self.type_of,
-- 
2.43.0


From dde5b9edc328948a55da6eef55a8349e245bbb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:05 +0000
Subject: [PATCH 36/84] fix: write pyvirg options as YAML that loads back to
 the same values

---
 pyvirg/virg/nexus/options.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyvirg/virg/nexus/options.py b/pyvirg/virg/nexus/options.py
index 1e736cb..962ad92 100644
--- a/pyvirg/virg/nexus/options.py
+++ b/pyvirg/virg/nexus/options.py
@@ -27,8 +27,11 @@ class OptionItem:
         self.key_name = key_name.replace('-', '_')
 
     def __str__(self):
-        return self.key_name + ': ' + \
-            (str(self.value) if self.value is not None else 'null')
+        value = self.value
+        if type(value) not in (str, int, float, bool, type(None)):
+            value = str(value)
+        return yaml.safe_dump({self.key_name: value},
+                              width=float('inf')).rstrip('\n')
 
     def add_as_argument(self, parser):
         names = ['-' + self.short_name if self.short_name else None,
-- 
2.43.0


From 7bba41c65d3d2fc821e15ef6fd34336e20de0197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:16 +0000
Subject: [PATCH 37/84] fix: image pyramid keeps the data of level 0 for padded
 and float images

---
 src/nx_image_pyr_builder.c | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/nx_image_pyr_builder.c b/src/nx_image_pyr_builder.c
index ce0a22e..036d4d0 100644
--- a/src/nx_image_pyr_builder.c
+++ b/src/nx_image_pyr_builder.c
@@ -40,6 +40,8 @@ static void _nx_image_pyr_builder_update_fast(struct NXImagePyrBuilder *builder,
 static void _nx_image_pyr_builder_update_fine(struct NXImagePyrBuilder *builder, struct NXImagePyr *pyr);
 static void _nx_image_pyr_builder_update_scaled(struct NXImagePyrBuilder *builder, struct NXImagePyr *pyr);
 
+static void init_levels_from(struct NXImagePyrBuilder *builder, struct NXImagePyr *pyr, int first_level, int width0, int height0);
+
 static inline float compute_sigma_g(float sigma_current, float sigma_desired);
 
 struct NXImagePyrBuilder *nx_image_pyr_builder_alloc()
@@ -180,7 +182,11 @@ void nx_image_pyr_builder_update(struct NXImagePyrBuilder *builder, struct NXIma
 
         int w0 = pyr->levels[0].img->width;
         int h0 = pyr->levels[0].img->height;
-        nx_image_pyr_builder_init_levels(builder, pyr, w0, h0);
+        // Level 0 already stores the input image with its own stride and data
+        // type, so only its info is set.
+        pyr->levels[0].scale = 1.0f;
+        pyr->levels[0].sigma = builder->pyr_info.sigma0;
+        init_levels_from(builder, pyr, 1, w0, h0);
 
         switch (builder->type) {
         case NX_IMAGE_PYR_BUILDER_FAST:
@@ -207,8 +213,18 @@ void nx_image_pyr_builder_init_levels(struct NXImagePyrBuilder *builder, struct
         NX_ASSERT(height0 > 0);
 
         nx_image_pyr_alloc_levels(pyr, builder->pyr_info.n_levels);
+        init_levels_from(builder, pyr, 0, width0, height0);
+
+        NX_ASSERT_PTR(pyr->n_levels == builder->pyr_info.n_levels);
+        NX_ASSERT_PTR(pyr->levels);
+        NX_ASSERT_PTR(pyr->levels[0].img);
+        NX_ASSERT(pyr->levels[0].img->width == width0);
+        NX_ASSERT(pyr->levels[0].img->height == height0);
+}
 
-        for (int i = 0; i < pyr->n_levels; ++i) {
+void init_levels_from(struct NXImagePyrBuilder *builder, struct NXImagePyr *pyr, int first_level, int width0, int height0)
+{
+        for (int i = first_level; i < pyr->n_levels; ++i) {
                 double scale_exp = i / (double)builder->pyr_info.n_octave_steps;
                 float sigma_i = builder->pyr_info.sigma0 * pow(2.0, scale_exp);
 
@@ -219,12 +235,6 @@ void nx_image_pyr_builder_init_levels(struct NXImagePyrBuilder *builder, struct
 
                 nx_image_pyr_create_level(pyr, i, wi, hi, si, sigma_i);
         }
-
-        NX_ASSERT_PTR(pyr->n_levels == builder->pyr_info.n_levels);
-        NX_ASSERT_PTR(pyr->levels);
-        NX_ASSERT_PTR(pyr->levels[0].img);
-        NX_ASSERT(pyr->levels[0].img->width == width0);
-        NX_ASSERT(pyr->levels[0].img->height == height0);
 }
 
 
-- 
2.43.0


From 7470edf6c798d136703882ecb1130ecb340d4d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:16 +0000
Subject: [PATCH 38/84] fix: clamp pixel values before converting them to
 integers

---
 src/nx_image.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/nx_image.c b/src/nx_image.c
index 8077e2a..59300d5 100644
--- a/src/nx_image.c
+++ b/src/nx_image.c
@@ -263,11 +263,11 @@ void nx_image_axpy_uc(struct NXImage *img, float a, float y)
                 uchar *row = img->data.uc + yc*img->row_stride;
                 for (int xc = 0; xc < img->width; ++xc) {
                         for (int c = 0; c < nc; ++c) {
-                                int p = a * row[nc * xc + c] + y;
-                                if (p < 0)
-                                        p = 0;
-                                else if (p > 255) {
-                                        p = 255;
+                                float p = a * row[nc * xc + c] + y;
+                                if (p < 0.0f)
+                                        p = 0.0f;
+                                else if (p > 255.0f) {
+                                        p = 255.0f;
                                 }
                                 row[nc * xc + c] = p;
                         }
@@ -410,8 +410,8 @@ static void nx_image_convert_f32_to_uc(struct NXImage* dest, const struct NXImag
                 const float *rsrc = src->data.f32 + y * src->row_stride;
                 uchar *rdest = dest->data.uc + y * dest->row_stride;
                 for (int x = 0; x < dest->width; ++x) {
-                        int value = rsrc[x] * 255.0f;
-                        value = nx_min_i(255, nx_max_i(0, value));
+                        float value = rsrc[x] * 255.0f;
+                        value = nx_min_s(255.0f, nx_max_s(0.0f, value));
                         rdest[x] = value;
                 }
         }
-- 
2.43.0


From 75fd13ab1462e3fcdfdc1eeec11b4d540857f58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:55 +0000
Subject: [PATCH 39/84] fix: colour map colours are opaque with alpha 1

---
 include/virg/nexus/vg_color_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/virg/nexus/vg_color_map.hpp b/include/virg/nexus/vg_color_map.hpp
index 12a3880..8fb2bd5 100644
--- a/include/virg/nexus/vg_color_map.hpp
+++ b/include/virg/nexus/vg_color_map.hpp
@@ -40,7 +40,7 @@ public:
                 uchar v[3];
                 nx_color_map_apply(&v[0], &v[1], &v[2], value,
                                    VGColorMap::type_to_nx_type(type));
-                return VGColor(v[0]/255.0, v[1]/255.0, v[2]/255.0, 255);
+                return VGColor(v[0]/255.0, v[1]/255.0, v[2]/255.0, 1.0);
         }
 
         static inline enum NXColorMap type_to_nx_type(Type type) {
-- 
2.43.0


From f8dae472abb171d4529b9c042264cf664ef4b4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:51 +0000
Subject: [PATCH 40/84] fix: CMYK JPEG files are refused instead of overflowing
 the row buffer

---
 src/nx_image_io_jpeg.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nx_image_io_jpeg.c b/src/nx_image_io_jpeg.c
index becd4ad..650bf1b 100644
--- a/src/nx_image_io_jpeg.c
+++ b/src/nx_image_io_jpeg.c
@@ -178,6 +178,8 @@ static NXResult load_as_jpeg(struct NXImage *img, FILE *jpeg_stream,
                 cinfo.output_components = 3;
                 cinfo.out_color_components = 3;
                 cinfo.out_color_space = JCS_RGB;
+        } else if (cinfo.out_color_space != JCS_GRAYSCALE) {
+                cinfo.out_color_space = JCS_RGB;
         }
 
         jpeg_start_decompress(&cinfo);
-- 
2.43.0


From 74154853650d00c87866ea69fe5bf4cdb95592ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:52 +0000
Subject: [PATCH 41/84] fix: release row buffers when PNG or JPEG coding fails

---
 src/nx_image_io_jpeg.c | 11 +++++++++--
 src/nx_image_io_png.c  |  8 ++++++--
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/nx_image_io_jpeg.c b/src/nx_image_io_jpeg.c
index 650bf1b..4de4f5e 100644
--- a/src/nx_image_io_jpeg.c
+++ b/src/nx_image_io_jpeg.c
@@ -60,12 +60,14 @@ static NXResult save_as_jpeg(const struct NXImage *img, FILE *jpeg_stream)
         struct jpeg_compress_struct cinfo;
         my_error_mgr jerr;
         int quality = 100;
+        uchar* volatile row_buffer = NULL;
 
         cinfo.err = jpeg_std_error(&jerr.pub);
         jerr.pub.error_exit = my_error_exit;
 
         if (setjmp(jerr.setjmp_buffer)) {
                 jpeg_destroy_compress(&cinfo);
+                nx_free(row_buffer);
                 return NX_FAIL;
         }
 
@@ -90,6 +92,7 @@ static NXResult save_as_jpeg(const struct NXImage *img, FILE *jpeg_stream)
         } else if (img->type == NX_IMAGE_RGBA) {
                 int x;
                 uchar* buffer = NX_NEW_UC(3*img->width);
+                row_buffer = buffer;
                 JSAMPROW row_pointer = (JSAMPROW)(buffer);
                 while (cinfo.next_scanline < cinfo.image_height) {
                         const unsigned char* read_row = img->data.uc + cinfo.next_scanline * img->row_stride;
@@ -100,13 +103,14 @@ static NXResult save_as_jpeg(const struct NXImage *img, FILE *jpeg_stream)
                         }
                         jpeg_write_scanlines(&cinfo, &row_pointer, 1);
                 }
-                nx_free(buffer);
         } else {
+                jpeg_destroy_compress(&cinfo);
                 return NX_FAIL;
         }
 
         jpeg_finish_compress(&cinfo);
         jpeg_destroy_compress(&cinfo);
+        nx_free(row_buffer);
 
         return NX_OK;
 }
@@ -157,12 +161,14 @@ static NXResult load_as_jpeg(struct NXImage *img, FILE *jpeg_stream,
 
         struct jpeg_decompress_struct cinfo;
         my_error_mgr jerr;
+        uchar* volatile row_buffer = NULL;
 
         cinfo.err = jpeg_std_error(&jerr.pub);
         jerr.pub.error_exit = my_error_exit;
 
         if (setjmp(jerr.setjmp_buffer)) {
                 jpeg_destroy_decompress(&cinfo);
+                nx_free(row_buffer);
                 return NX_FAIL;
         }
 
@@ -194,6 +200,7 @@ static NXResult load_as_jpeg(struct NXImage *img, FILE *jpeg_stream,
         } else {
                 int x;
                 uchar* buffer = NX_NEW_UC(3*img->width);
+                row_buffer = buffer;
                 JSAMPROW row_pointer = (JSAMPROW)(buffer);
                 while (cinfo.output_scanline < cinfo.output_height) {
                         uchar* write_row = img->data.uc + cinfo.output_scanline * img->row_stride;
@@ -205,11 +212,11 @@ static NXResult load_as_jpeg(struct NXImage *img, FILE *jpeg_stream,
                                 write_row[4*x + 3] = 255;
                         }
                 }
-                nx_free(buffer);
         }
 
         jpeg_finish_decompress(&cinfo);
         jpeg_destroy_decompress(&cinfo);
+        nx_free(row_buffer);
 
         return NX_OK;
 }
diff --git a/src/nx_image_io_png.c b/src/nx_image_io_png.c
index ba975a0..4185b7b 100644
--- a/src/nx_image_io_png.c
+++ b/src/nx_image_io_png.c
@@ -64,9 +64,11 @@ static NXResult save_as_png(const struct NXImage *img, FILE *fout)
                 return NX_FAIL;
         }
 
+        png_bytepp volatile row_pointers = NULL;
         if (setjmp(png_jmpbuf(png_ptr))) {
                 NX_ERROR(NX_LOG_TAG, "Error creating jump for PNG pointer");
                 png_destroy_write_struct(&png_ptr, &info_ptr);
+                nx_free(row_pointers);
                 return NX_FAIL;
         }
 
@@ -90,7 +92,7 @@ static NXResult save_as_png(const struct NXImage *img, FILE *fout)
 
         NX_ASSERT((unsigned int)img->height <= PNG_UINT_32_MAX/sizeof(png_bytep));
 
-        png_bytepp row_pointers = NX_NEW(img->height, png_bytep);
+        row_pointers = NX_NEW(img->height, png_bytep);
         if (!row_pointers) {
                 NX_ERROR(NX_LOG_TAG, "Error creating PNG row pointers");
                 png_destroy_write_struct(&png_ptr, &info_ptr);
@@ -132,9 +134,11 @@ static NXResult load_as_png(struct NXImage *img, FILE *fin,
                 return NX_FAIL;
         }
 
+        png_bytepp volatile row_pointers = NULL;
         if (setjmp(png_jmpbuf(png_ptr))) {
                 NX_ERROR(NX_LOG_TAG, "Could not set jump point for reading PNG file");
                 png_destroy_read_struct(&png_ptr, &info_ptr, png_infopp_NULL);
+                nx_free(row_pointers);
                 return NX_FAIL;
         }
 
@@ -196,7 +200,7 @@ static NXResult load_as_png(struct NXImage *img, FILE *fin,
                                 NX_IMAGE_UCHAR);
         }
 
-        png_bytepp row_pointers = NX_NEW(img->height, png_bytep);
+        row_pointers = NX_NEW(img->height, png_bytep);
         for (int row = 0; row < img->height; row++) {
                 row_pointers[row] = img->data.uc + row * img->row_stride;
         }
-- 
2.43.0


From 2912600ecf3a9b75e0f9d5e0bf8396b21e361bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:52 +0000
Subject: [PATCH 42/84] fix: PNM files with more than 8 bits per sample are
 refused instead of misread

---
 src/nx_image_io_pnm.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/nx_image_io_pnm.c b/src/nx_image_io_pnm.c
index 04e245e..5443b20 100644
--- a/src/nx_image_io_pnm.c
+++ b/src/nx_image_io_pnm.c
@@ -204,6 +204,8 @@ void nx_image_xload_pnm(struct NXImage *img, const char *filename,
         if (fscanf(pnm, "%d %d %d", &pnm_width, &pnm_height, &pnm_levels) != 3) {
                 NX_IO_FATAL(NX_LOG_TAG, "Could not read image attributes from %s", filename);
         }
+        if (pnm_levels < 1 || pnm_levels > 255)
+                NX_FATAL(NX_LOG_TAG, "Unsupported number of levels %d in %s", pnm_levels, filename);
         if (pnm_width < 0 || pnm_height < 0)
                 NX_FATAL(NX_LOG_TAG, "Invalid image size %dx%d in %s", pnm_width, pnm_height, filename);
         c = fgetc(pnm);
@@ -281,6 +283,11 @@ NXResult nx_image_load_pnm(struct NXImage *img, const char *filename,
                 fclose(pnm);
                 return NX_FAIL;
         }
+        if (pnm_levels < 1 || pnm_levels > 255) {
+                NX_ERROR(NX_LOG_TAG, "Unsupported number of levels %d in %s", pnm_levels, filename);
+                fclose(pnm);
+                return NX_FAIL;
+        }
         if (pnm_width < 0 || pnm_height < 0) {
                 NX_ERROR(NX_LOG_TAG, "Invalid image size %dx%d in %s", pnm_width, pnm_height, filename);
                 fclose(pnm);
-- 
2.43.0


From 0cd9cfc604440bce68e63e58615a2b6d1a85cefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:49 +0000
Subject: [PATCH 43/84] fix: drop the transparency of gray PNG images loaded as
 is

---
 src/nx_image_io_png.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nx_image_io_png.c b/src/nx_image_io_png.c
index 4185b7b..3b29247 100644
--- a/src/nx_image_io_png.c
+++ b/src/nx_image_io_png.c
@@ -184,6 +184,7 @@ static NXResult load_as_png(struct NXImage *img, FILE *fin,
                 if (color_type == PNG_COLOR_TYPE_GRAY ||
                     color_type == PNG_COLOR_TYPE_GA) {
                         output_type = NX_IMAGE_GRAYSCALE;
+                        png_set_strip_alpha(png_ptr); // expanded tRNS chunk
                 }
 
                 if(color_type == PNG_COLOR_TYPE_RGB ||
-- 
2.43.0


From b08c965cda9107d95890cf528afa17a4c9130f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:14 +0000
Subject: [PATCH 44/84] fix: hash float pixels and the image shape for the SIFT
 cache

---
 src/nx_sift_detector.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/nx_sift_detector.c b/src/nx_sift_detector.c
index f6e186c..f04f1ea 100644
--- a/src/nx_sift_detector.c
+++ b/src/nx_sift_detector.c
@@ -673,18 +673,21 @@ int nx_sift_detector_compute_with_cache(struct NXSIFTDetector *detector,
                 cache_dir = NX_DEFAULT_CACHE_DIRECTORY;
 
         int n_rows = image->height;
-        int n_msgs = n_rows + 1;
+        int shape[3] = { image->width, image->height, (int)image->dtype };
+        int n_msgs = n_rows + 2;
         uint8_t **msgs = NX_NEW(n_msgs, uint8_t *);
         size_t *lmsg = NX_NEW_Z(n_msgs);
         for (int i = 0; i < n_rows; ++i) {
                 if (image->dtype == NX_IMAGE_UCHAR) {
                         msgs[i] = (uint8_t *)(image->data.uc + i * image->row_stride);
                         lmsg[i] = image->width * image->n_channels * sizeof(uchar);
-                } else if (image->dtype == NX_IMAGE_UCHAR) {
+                } else {
                         msgs[i] = (uint8_t *)(image->data.f32 + i * image->row_stride);
                         lmsg[i] = image->width * image->n_channels * sizeof(float);
                 }
         }
+        msgs[n_msgs - 2] = (uint8_t *)(&shape[0]);
+        lmsg[n_msgs - 2] = sizeof(shape);
         msgs[n_msgs - 1] = (uint8_t *)(&detector->param);
         lmsg[n_msgs - 1] = sizeof(detector->param);
         uint8_t hash[32];
-- 
2.43.0


From f756177c3e23a61456c34dc110dabd75de0903a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:14 +0000
Subject: [PATCH 45/84] fix: release the hash inputs of the SIFT caches

---
 src/nx_sift_detector.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nx_sift_detector.c b/src/nx_sift_detector.c
index f04f1ea..5cb8623 100644
--- a/src/nx_sift_detector.c
+++ b/src/nx_sift_detector.c
@@ -726,6 +726,8 @@ int nx_sift_detector_compute_with_cache(struct NXSIFTDetector *detector,
                        n_keys, cachefilepath);
         }
 
+        nx_free(msgs);
+        nx_free(lmsg);
         nx_free(hash_str);
         nx_free(cachefilepath);
 
@@ -883,6 +885,8 @@ int nx_sift_match_brute_force_with_cache(int n,  const struct NXKeypoint *keys,
                        n_corr, cachefilepath);
         }
 
+        nx_free(msgs);
+        nx_free(lmsg);
         nx_free(hash_str);
         nx_free(cachefilepath);
 
-- 
2.43.0


From 743ff2695b5cbae486fd33542b566f31145a4533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:14 +0000
Subject: [PATCH 46/84] fix: report write errors of the SIFT caches

---
 src/nx_sift_detector.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nx_sift_detector.c b/src/nx_sift_detector.c
index 5cb8623..376cc94 100644
--- a/src/nx_sift_detector.c
+++ b/src/nx_sift_detector.c
@@ -721,7 +721,7 @@ int nx_sift_detector_compute_with_cache(struct NXSIFTDetector *detector,
                 nx_xfwrite(&n_keys, sizeof(n_keys), 1, fout);
                 nx_xfwrite(*keys, sizeof(struct NXKeypoint), n_keys, fout);
                 nx_xfwrite(*desc, sizeof(uchar), n_keys * NX_SIFT_DESC_DIM, fout);
-                nx_fclose(fout, cachefilepath);
+                nx_xfclose(fout, cachefilepath);
                 NX_LOG(NX_LOG_TAG, "Cached %d SIFT keypoints and descriptors to %s",
                        n_keys, cachefilepath);
         }
@@ -880,7 +880,7 @@ int nx_sift_match_brute_force_with_cache(int n,  const struct NXKeypoint *keys,
                 FILE *fout = nx_xfopen(cachefilepath, "wb");
                 nx_xfwrite(&n_corr, sizeof(n_corr), 1, fout);
                 nx_xfwrite(corr, sizeof(struct NXPointMatch2D), n_corr, fout);
-                nx_fclose(fout, cachefilepath);
+                nx_xfclose(fout, cachefilepath);
                 NX_LOG(NX_LOG_TAG, "Cached %d SIFT matches to %s",
                        n_corr, cachefilepath);
         }
-- 
2.43.0


From 2a6289a71549198b5cc8a27d2ce32147868af110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:14 +0000
Subject: [PATCH 47/84] fix: no SIFT matches when there is nothing to match to

---
 src/nx_sift_detector.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nx_sift_detector.c b/src/nx_sift_detector.c
index 376cc94..e347f50 100644
--- a/src/nx_sift_detector.c
+++ b/src/nx_sift_detector.c
@@ -751,6 +751,9 @@ int nx_sift_match_brute_force(int n,  const struct NXKeypoint *keys,
 
         const float SIFT_LOCALIZATION_STD_DEV = 0.3f;
 
+        if (np == 0)
+                return 0;
+
         NXBool check_dist_ratio = dist_ratio_thr > 0.0f && dist_ratio_thr < 1.0f;
 
         if (check_dist_ratio) {
-- 
2.43.0


From c17c44e54bf2856bff4bedbfd99ecd7fd37bdff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:50 +0000
Subject: [PATCH 48/84] fix: no oriented BRIEF descriptor beyond the last
 pyramid level

---
 src/nx_brief_extractor.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nx_brief_extractor.c b/src/nx_brief_extractor.c
index 4386371..3791d27 100644
--- a/src/nx_brief_extractor.c
+++ b/src/nx_brief_extractor.c
@@ -239,6 +239,9 @@ NXBool nx_brief_extractor_compute_pyr_at_theta(struct NXBriefExtractor *be, cons
         NX_ASSERT_PTR(desc);
 
         int sample_level = level + be->pyr_level_offset;
+        if (sample_level >= pyr->n_levels)
+                return NX_FALSE;
+
         const struct NXImage *img = pyr->levels[sample_level].img;
         NX_IMAGE_ASSERT_GRAYSCALE_UCHAR(img);
 
-- 
2.43.0


From 9dad44233d37194182af70093d57b8a03d4d3cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:50 +0000
Subject: [PATCH 49/84] fix: define the parameter setters of VGHarrisDetector

---
 src/vg_harris_detector.cc | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/vg_harris_detector.cc b/src/vg_harris_detector.cc
index cbb6b59..5fb1f49 100644
--- a/src/vg_harris_detector.cc
+++ b/src/vg_harris_detector.cc
@@ -42,6 +42,21 @@ VGHarrisDetector::~VGHarrisDetector()
 {
 }
 
+void VGHarrisDetector::set_sigma_win(float sigma_win)
+{
+        m_sigma_win = sigma_win;
+}
+
+void VGHarrisDetector::set_k(float k)
+{
+        m_k = k;
+}
+
+void VGHarrisDetector::set_threshold(float threshold)
+{
+        m_threshold = threshold;
+}
+
 float VGHarrisDetector::adapt_threshold(float threshold, int n_keys,
                                         int max_n_keys)
 {
-- 
2.43.0


From c2da071e02262dda2b5676d354cbb8d1e94a004b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:26 +0000
Subject: [PATCH 50/84] fix: compare the true angle between the diagonals in
 nx_homography_check

---
 src/nx_homography.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nx_homography.c b/src/nx_homography.c
index 1655cf0..3ae4666 100644
--- a/src/nx_homography.c
+++ b/src/nx_homography.c
@@ -74,7 +74,7 @@ NXBool nx_homography_check(const double *h, double max_abs_cos)
         double l_AC[3];
         line_eqn_2d(&A[0], &C[0], &l_AC[0]);
 
-        double n_inv = 1.0 / (l_AC[0]*l_AC[0] + l_AC[1]*l_AC[1]);
+        double n_inv = 1.0 / sqrt(l_AC[0]*l_AC[0] + l_AC[1]*l_AC[1]);
         l_AC[0] *= n_inv;
         l_AC[1] *= n_inv;
         l_AC[2] *= n_inv;
@@ -87,7 +87,7 @@ NXBool nx_homography_check(const double *h, double max_abs_cos)
         double AC[2] = { -l_AC[1], l_AC[0] };
         double BD[2] = { B[0] - D[0], B[1] - D[1] };
 
-        n_inv = 1.0 / (BD[0]*BD[0] + BD[1]*BD[1]);
+        n_inv = 1.0 / sqrt(BD[0]*BD[0] + BD[1]*BD[1]);
         BD[0] *= n_inv;
         BD[1] *= n_inv;
 
-- 
2.43.0


From 4a7a29ae6b2253c87eb158932884bbeb36690a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:26 +0000
Subject: [PATCH 51/84] fix: do not score a stale homography after degenerate
 samples

---
 src/nx_homography.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nx_homography.c b/src/nx_homography.c
index 3ae4666..b7fe3f4 100644
--- a/src/nx_homography.c
+++ b/src/nx_homography.c
@@ -307,9 +307,11 @@ int nx_homography_estimate_ransac(double *h, int n_corr, struct NXPointMatch2D *
             do {
                 nx_select_prosac_candidates(n_top_hypo, corr_ids);
                 det = nx_homography_estimate_4pt(h, corr_ids, corr_list);
-            } while ((det == 0.0) && --tries && !nx_homography_check(h, max_abs_cos));
+            } while ((det == 0.0 || !nx_homography_check(h, max_abs_cos)) && --tries);
 
-            n_inliers = nx_homography_mark_inliers(h, n_corr, corr_list, inlier_tolerance);
+            n_inliers = 0;
+            if (det != 0.0)
+                n_inliers = nx_homography_mark_inliers(h, n_corr, corr_list, inlier_tolerance);
 
             // update if we got sth. better than current best
             if (n_inliers > n_inliers_best) {
-- 
2.43.0


From 6a5a272ae1b3df5e9f2ce545e0d71f9d053a7dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:26 +0000
Subject: [PATCH 52/84] fix: keep coincident point matches finite when
 normalizing

---
 src/nx_point_match_2d_stats.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/nx_point_match_2d_stats.c b/src/nx_point_match_2d_stats.c
index 624ba6f..6d4d571 100644
--- a/src/nx_point_match_2d_stats.c
+++ b/src/nx_point_match_2d_stats.c
@@ -56,6 +56,11 @@ void nx_point_match_2d_stats_normalize_matches(struct NXPointMatch2DStats *stats
                                                int n_corr,
                                                struct NXPointMatch2D *corr_list)
 {
+        if (n_corr <= 0) {
+                nx_point_match_2d_stats_reset(stats);
+                return;
+        }
+
         memset(stats, 0, sizeof(*stats));
 
         for (int i = 0; i < n_corr; ++i) {
@@ -85,6 +90,12 @@ void nx_point_match_2d_stats_normalize_matches(struct NXPointMatch2DStats *stats
         stats->d /= n_corr;
         stats->dp /= n_corr;
 
+        // no spread to normalize
+        if (stats->d == 0.0)
+                stats->d = 1.0;
+        if (stats->dp == 0.0)
+                stats->dp = 1.0;
+
         for (int i = 0; i < n_corr; ++i) {
                 struct NXPointMatch2D *corr = corr_list + i;
                 corr->x[0]     /= stats->d;
-- 
2.43.0


From 3e631259d38d65960d090267deafafa22a5523c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:28 +0000
Subject: [PATCH 53/84] fix: use the column-major second calibration in
 nx_essential_from_fundamental

---
 src/nx_epipolar.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/nx_epipolar.c b/src/nx_epipolar.c
index dac6079..f446c12 100644
--- a/src/nx_epipolar.c
+++ b/src/nx_epipolar.c
@@ -319,12 +319,12 @@ void nx_essential_from_fundamental(double *E, const double *F,
         E[0] = Kp[0]*Fk[0];
         E[3] = Kp[0]*Fk[3];
         E[6] = Kp[0]*Fk[6];
-        E[1] = Kp[1]*Fk[0] + Kp[4]*Fk[1];
-        E[4] = Kp[1]*Fk[3] + Kp[4]*Fk[4];
-        E[7] = Kp[1]*Fk[6] + Kp[4]*Fk[7];
-        E[2] = Kp[2]*Fk[0] + Kp[5]*Fk[1] + Fk[2];
-        E[5] = Kp[2]*Fk[3] + Kp[5]*Fk[4] + Fk[5];
-        E[8] = Kp[2]*Fk[6] + Kp[5]*Fk[7] + Fk[8];
+        E[1] = Kp[3]*Fk[0] + Kp[4]*Fk[1];
+        E[4] = Kp[3]*Fk[3] + Kp[4]*Fk[4];
+        E[7] = Kp[3]*Fk[6] + Kp[4]*Fk[7];
+        E[2] = Kp[6]*Fk[0] + Kp[7]*Fk[1] + Fk[2];
+        E[5] = Kp[6]*Fk[3] + Kp[7]*Fk[4] + Fk[5];
+        E[8] = Kp[6]*Fk[6] + Kp[7]*Fk[7] + Fk[8];
 }
 
 
-- 
2.43.0


From e421a57ee074e90b3ff4290d3923ab8ed0bf43c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:09 +0000
Subject: [PATCH 54/84] fix: SIFT key store grows from any capacity

---
 src/nx_sift_detector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_sift_detector.c b/src/nx_sift_detector.c
index e347f50..88bd00f 100644
--- a/src/nx_sift_detector.c
+++ b/src/nx_sift_detector.c
@@ -151,7 +151,7 @@ struct NXSIFTKeyStore {
 int nx_sift_key_store_append(struct NXSIFTKeyStore *store)
 {
         if (store->n >= store->cap) {
-                int new_cap = (int)(store->cap * 1.6f);
+                int new_cap = nx_max_i((int)(store->cap * 1.6f), store->n + 1);
                 store->keys = (struct NXKeypoint *)nx_xrealloc(store->keys,
                                                                new_cap*sizeof(struct NXKeypoint));
                 store->desc = (uchar *)nx_xrealloc(store->desc,
-- 
2.43.0


From 6931640ffb6b452cc537f401010f5bc432486482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:09 +0000
Subject: [PATCH 55/84] fix: hash the number of keypoints for the SIFT match
 cache

---
 src/nx_sift_detector.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/nx_sift_detector.c b/src/nx_sift_detector.c
index 88bd00f..502cf31 100644
--- a/src/nx_sift_detector.c
+++ b/src/nx_sift_detector.c
@@ -844,7 +844,8 @@ int nx_sift_match_brute_force_with_cache(int n,  const struct NXKeypoint *keys,
         if (!cache_dir)
                 cache_dir = NX_DEFAULT_CACHE_DIRECTORY;
 
-        int n_msgs = 5;
+        int n_keys[2] = { n, np };
+        int n_msgs = 6;
         uint8_t **msgs = NX_NEW(n_msgs, uint8_t *);
         size_t *lmsg = NX_NEW_Z(n_msgs);
         msgs[0] = (uint8_t *)(keys);
@@ -860,6 +861,9 @@ int nx_sift_match_brute_force_with_cache(int n,  const struct NXKeypoint *keys,
         msgs[4] = (uint8_t *)(&dist_ratio_thr);
         lmsg[4] = sizeof(dist_ratio_thr);
 
+        msgs[5] = (uint8_t *)(&n_keys[0]);
+        lmsg[5] = sizeof(n_keys);
+
         uint8_t hash[32];
         nx_sha256_multi(&hash[0], n_msgs, (const uint8_t *const *)msgs, lmsg);
 
-- 
2.43.0


From 59a2046a901464ca48b2bdb6f5ab1dd3462231e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:09 +0000
Subject: [PATCH 56/84] fix: do not search for SIFT keypoints beyond the image
 width

---
 src/nx_sift_detector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_sift_detector.c b/src/nx_sift_detector.c
index 502cf31..3dcea1f 100644
--- a/src/nx_sift_detector.c
+++ b/src/nx_sift_detector.c
@@ -527,7 +527,7 @@ void nx_sift_process_dog(struct NXSIFTDetector *det,
                 const float *dogp_rowm  = dogp->data.f32 + (y-1) * dogp->row_stride;
                 const float *dogp_row   = dogp_rowm + dogp->row_stride;
                 const float *dogp_rowp  = dogp_row  + dogp->row_stride;
-                for (int x = B; x < dog->width + B; ++x) {
+                for (int x = B; x < dog->width - B; ++x) {
                         float dval = dog_row[x];
                         if (fabs(dval) > 0.8 * peak_thr
                             && ((dval > 0 && dval > dog_row[x-1]   && dval > dog_row[x+1]
-- 
2.43.0


From 58b3d460c652203959e25a232d30be3ed8050355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:09 +0000
Subject: [PATCH 57/84] fix: use the smoothed bin at the SIFT orientation
 histogram border

---
 src/nx_sift_detector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_sift_detector.c b/src/nx_sift_detector.c
index 3dcea1f..8964fd9 100644
--- a/src/nx_sift_detector.c
+++ b/src/nx_sift_detector.c
@@ -347,7 +347,7 @@ float nx_sift_compute_ori_hist(float *hist, const struct NXImage *gx,
                 memcpy(&hist[1], &hist_buffer[0], NX_SIFT_N_ORI_BINS*sizeof(*hist));
         }
         // create cyclic border of length one
-        hist[0] = hist_buffer[NX_SIFT_N_ORI_BINS];
+        hist[0] = hist[NX_SIFT_N_ORI_BINS];
         hist[NX_SIFT_N_ORI_BINS+1] = hist[1];
 
         // Compute and return histogram peak
-- 
2.43.0


From c19c1951bb73f9482b288bfd48f8f50cb30b9a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:09 +0000
Subject: [PATCH 58/84] fix: keep the SIFT descriptor orientation bin in range

---
 src/nx_sift_detector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_sift_detector.c b/src/nx_sift_detector.c
index 8964fd9..7b50560 100644
--- a/src/nx_sift_detector.c
+++ b/src/nx_sift_detector.c
@@ -228,7 +228,7 @@ void nx_sift_compute_fdescriptor(struct NXSIFTDetector *det,
                                 float h  = N_ORI_BINS * (sample_ori / (2.0 * NX_PI));
                                 int pxi = px > 0.0f ? (int)px : (int)(px - 1.0f); // floor
                                 int pyi = py > 0.0f ? (int)py : (int)(py - 1.0f); // floor
-                                int hi  = h  > 0.0f ? (int)h  : (int)(h  - 1.0f); // floor
+                                int hi  = (int)h; // h is never negative
                                 int hi0 = (hi >= N_ORI_BINS) ? 0 : hi;
                                 int hi1 = ((hi0 + 1) >= N_ORI_BINS) ? 0 : hi0 + 1;
                                 float xeps = px - pxi;
-- 
2.43.0


From f9f57e44d687219b69ed9665f8df7113f547a178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:24 +0000
Subject: [PATCH 59/84] fix: graphics context curves end at the given end point

---
 src/nx_gc_cairo_imp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nx_gc_cairo_imp.c b/src/nx_gc_cairo_imp.c
index aa4c338..57ced8e 100644
--- a/src/nx_gc_cairo_imp.c
+++ b/src/nx_gc_cairo_imp.c
@@ -310,7 +310,7 @@ void nx_gc_curve_to(struct NXGC* gc, double x_e, double y_e,
         NX_ASSERT_PTR(gc->ctx);
         NX_ASSERT_PTR(gc->surface);
 
-        cairo_curve_to(gc->ctx, x_e, y_e, c1x, c1y, c2x, c2y);
+        cairo_curve_to(gc->ctx, c1x, c1y, c2x, c2y, x_e, y_e);
 }
 
 void nx_gc_rel_curve_to(struct NXGC* gc, double dx_e, double dy_e,
@@ -331,7 +331,7 @@ void nx_gc_curve(struct NXGC* gc, double x_s, double y_s, double x_e, double y_e
         NX_ASSERT_PTR(gc->surface);
 
         cairo_move_to(gc->ctx, x_s, y_s);
-        cairo_curve_to(gc->ctx, x_e, y_e, c1x, c1y, c2x, c2y);
+        cairo_curve_to(gc->ctx, c1x, c1y, c2x, c2y, x_e, y_e);
 }
 
 void nx_gc_draw_text(struct NXGC* gc, double x, double y, const char* txt, double font_sz)
-- 
2.43.0


From a0c8d5a64217c708a3ef52c97a55e43d11739379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:24 +0000
Subject: [PATCH 60/84] fix: relative graphics context curves are relative to
 the current point

---
 src/nx_gc_cairo_imp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_gc_cairo_imp.c b/src/nx_gc_cairo_imp.c
index 57ced8e..bcdbe69 100644
--- a/src/nx_gc_cairo_imp.c
+++ b/src/nx_gc_cairo_imp.c
@@ -320,7 +320,7 @@ void nx_gc_rel_curve_to(struct NXGC* gc, double dx_e, double dy_e,
         NX_ASSERT_PTR(gc->ctx);
         NX_ASSERT_PTR(gc->surface);
 
-        cairo_curve_to(gc->ctx, dx_e, dy_e, c1dx, c1dy, c2dx, c2dy);
+        cairo_rel_curve_to(gc->ctx, c1dx, c1dy, c2dx, c2dy, dx_e, dy_e);
 }
 
 void nx_gc_curve(struct NXGC* gc, double x_s, double y_s, double x_e, double y_e,
-- 
2.43.0


From 3e169fb9313f5e1c6c92d4cf4eb74833628d55e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:24 +0000
Subject: [PATCH 61/84] fix: a graphics context whose surface cannot be created
 is reported

---
 src/nx_gc_cairo_imp.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/nx_gc_cairo_imp.c b/src/nx_gc_cairo_imp.c
index bcdbe69..3462ba5 100644
--- a/src/nx_gc_cairo_imp.c
+++ b/src/nx_gc_cairo_imp.c
@@ -67,7 +67,8 @@ struct NXGC* nx_gc_new(struct NXImage* img)
                                                           img->height,
                                                           img->row_stride);
 
-        if (!gc->surface) {
+        if (cairo_surface_status(gc->surface) != CAIRO_STATUS_SUCCESS) {
+                cairo_surface_destroy(gc->surface);
                 nx_free(gc);
                 NX_FATAL(NX_LOG_TAG, "Could not create Cairo surface for new GC from image.");
         }
@@ -94,7 +95,8 @@ struct NXGC* nx_gc_new_pdf(const char* filename, double width, double height)
         gc->type = NX_GC_PDF;
 
         gc->surface = cairo_pdf_surface_create(filename, width, height);
-        if (!gc->surface) {
+        if (cairo_surface_status(gc->surface) != CAIRO_STATUS_SUCCESS) {
+                cairo_surface_destroy(gc->surface);
                 nx_free(gc);
                 NX_FATAL(NX_LOG_TAG, "Could not create Cairo surface for new PDF GC for file %s.", filename);
         }
@@ -121,7 +123,8 @@ struct NXGC* nx_gc_new_svg(const char* filename, double width, double height)
         gc->type = NX_GC_SVG;
 
         gc->surface = cairo_svg_surface_create(filename, width, height);
-        if (!gc->surface) {
+        if (cairo_surface_status(gc->surface) != CAIRO_STATUS_SUCCESS) {
+                cairo_surface_destroy(gc->surface);
                 nx_free(gc);
                 NX_FATAL(NX_LOG_TAG, "Could not create Cairo surface for new SVG GC for file %s.", filename);
         }
-- 
2.43.0


From f34dd18c49aa848a4315531b9c542fc5825fc39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:24 +0000
Subject: [PATCH 62/84] fix: gnuplot axis labels are set as labels

---
 src/nx_gnuplot.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nx_gnuplot.c b/src/nx_gnuplot.c
index c26cea2..3b847c1 100644
--- a/src/nx_gnuplot.c
+++ b/src/nx_gnuplot.c
@@ -202,7 +202,7 @@ void nx_gnuplot_set_xlabel(struct NXGNUPlot *gnuplot,
         NX_ASSERT_PTR(gnuplot);
         NX_ASSERT_PTR(label);
 
-        nx_gnuplot_send_command(gnuplot, "set title xlabel \"%s\";\n", label);
+        nx_gnuplot_send_command(gnuplot, "set xlabel \"%s\";\n", label);
 }
 
 void nx_gnuplot_set_ylabel(struct NXGNUPlot *gnuplot,
@@ -211,7 +211,7 @@ void nx_gnuplot_set_ylabel(struct NXGNUPlot *gnuplot,
         NX_ASSERT_PTR(gnuplot);
         NX_ASSERT_PTR(label);
 
-        nx_gnuplot_send_command(gnuplot, "set title ylabel \"%s\";\n", label);
+        nx_gnuplot_send_command(gnuplot, "set ylabel \"%s\";\n", label);
 }
 
 void nx_gnuplot_set_title_and_labels(struct NXGNUPlot *gnuplot, const char *title,
-- 
2.43.0


From 06e4dfb7ad92f9bffd459881b0c0254c62b840e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:24 +0000
Subject: [PATCH 63/84] fix: a KITTI sequence without a pose file has no ground
 truth

---
 src/nx_kitti_slam.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_kitti_slam.c b/src/nx_kitti_slam.c
index d4c840f..6b0667a 100644
--- a/src/nx_kitti_slam.c
+++ b/src/nx_kitti_slam.c
@@ -139,7 +139,7 @@ struct NXKittiSLAMSequence *nx_kitti_slam_sequence_new(struct NXKittiSLAM *datas
         char *pose_file = nx_fstr(NX_KITTI_SLAM_POSE_FILE_FORMAT,
                                   dataset->base_dir, seq_id);
         FILE *pose_in = nx_fopen(pose_file, "r");
-        seq->is_gt_available = (pose_file != NULL);
+        seq->is_gt_available = (pose_in != NULL);
         if (seq->is_gt_available) {
                 seq->poses = nx_read_poses_from_pose_file(pose_in, &seq->length);
                 nx_fclose(pose_in, "pose_in");
-- 
2.43.0


From 5c8db82b3b1b57b5cffc71f3ba2c67931934d6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:37 +0000
Subject: [PATCH 64/84] fix: mirrored filter borders wider than the data
 reflect repeatedly

---
 src/nx_filter.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/nx_filter.c b/src/nx_filter.c
index 3ba3332..2a1f13c 100644
--- a/src/nx_filter.c
+++ b/src/nx_filter.c
@@ -130,6 +130,16 @@ void nx_convolve_box(int n, float *data, int n_r)
                 data[i] /= (2*n_r+1);
 }
 
+static inline int mirror_offset(int n, int i)
+{
+        if (n < 2)
+                return 0;
+
+        int period = 2 * (n - 1);
+        int j = i % period;
+        return j < n ? j : period - j;
+}
+
 void fill_buffer_border(int n, float *buffer, int n_border, enum NXBorderMode mode)
 {
         float buffer_b;
@@ -147,10 +157,11 @@ void fill_buffer_border(int n, float *buffer, int n_border, enum NXBorderMode mo
                         buffer[n_border+n+i] = buffer_b;
                 break;
         case NX_BORDER_MIRROR:
-                for (int i = 0; i < n_border; ++i)
-                        buffer[i] = buffer[2*n_border-i];
-                for (int i = 0; i < n_border; ++i)
-                        buffer[n_border+n+i] = buffer[n_border+n-i-2];
+                for (int i = 1; i <= n_border; ++i) {
+                        int j = mirror_offset(n, i);
+                        buffer[n_border-i] = buffer[n_border+j];
+                        buffer[n_border+n-1+i] = buffer[n_border+n-1-j];
+                }
                 break;
         default:
                 NX_FATAL(NX_LOG_TAG, "Unhandled switch case for border mode.");
-- 
2.43.0


From 7c612941892d69192cdc59b7308d626bfd623c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:18 +0000
Subject: [PATCH 65/84] fix: affine warps without blur in a direction keep the
 picture

---
 src/nx_affine_warp_processor.c | 36 +++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/nx_affine_warp_processor.c b/src/nx_affine_warp_processor.c
index a58eb29..f3257d7 100644
--- a/src/nx_affine_warp_processor.c
+++ b/src/nx_affine_warp_processor.c
@@ -674,32 +674,36 @@ static void warp_processor_blur(struct NXImage *image,
 
         // Smooth in x-direction
         int nk = nkx / 2 + 1;
-        nx_kernel_sym_gaussian(nk, kernel, sigma_x);
+        if (sigma_x > 0.0f) {
+                nx_kernel_sym_gaussian(nk, kernel, sigma_x);
 #ifdef _OPENMP
 #pragma omp parallel for schedule(dynamic, 4)
 #endif
-        for (int y = 0; y < image->height; ++y) {
-                float *buffer = buffers[omp_get_thread_num()];
-                uchar *image_row = image->data.uc + y * image->row_stride;
-                nx_filter_copy_to_buffer1_uc(image->width, buffer, image_row, nkx / 2, NX_BORDER_MIRROR);
-                nx_convolve_sym(image->width, buffer, nk, kernel);
-                for (int x = 0; x < image->width; ++x)
-                        image_row[x] = (uchar)buffer[x];
+                for (int y = 0; y < image->height; ++y) {
+                        float *buffer = buffers[omp_get_thread_num()];
+                        uchar *image_row = image->data.uc + y * image->row_stride;
+                        nx_filter_copy_to_buffer1_uc(image->width, buffer, image_row, nkx / 2, NX_BORDER_MIRROR);
+                        nx_convolve_sym(image->width, buffer, nk, kernel);
+                        for (int x = 0; x < image->width; ++x)
+                                image_row[x] = (uchar)buffer[x];
+                }
         }
 
         // Smooth in y-direction
         nk = nky / 2 + 1;
-        nx_kernel_sym_gaussian(nk, kernel, sigma_y);
+        if (sigma_y > 0.0f) {
+                nx_kernel_sym_gaussian(nk, kernel, sigma_y);
 #ifdef _OPENMP
 #pragma omp parallel for schedule(dynamic, 4)
 #endif
-        for (int x = 0; x < image->width; ++x) {
-                float *buffer = buffers[omp_get_thread_num()];
-                uchar *image_col = image->data.uc + x;
-                nx_filter_copy_to_buffer_uc(image->height, buffer, image_col, image->row_stride, nky / 2, NX_BORDER_MIRROR);
-                nx_convolve_sym(image->height, buffer, nk, kernel);
-                for (int y = 0; y < image->height; ++y)
-                        image_col[y*image->row_stride] = (uchar)buffer[y];
+                for (int x = 0; x < image->width; ++x) {
+                        float *buffer = buffers[omp_get_thread_num()];
+                        uchar *image_col = image->data.uc + x;
+                        nx_filter_copy_to_buffer_uc(image->height, buffer, image_col, image->row_stride, nky / 2, NX_BORDER_MIRROR);
+                        nx_convolve_sym(image->height, buffer, nk, kernel);
+                        for (int y = 0; y < image->height; ++y)
+                                image_col[y*image->row_stride] = (uchar)buffer[y];
+                }
         }
 
         nx_free(kernel);
-- 
2.43.0


From d458fde689914b512798afd7495b265fafd23f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:24 +0000
Subject: [PATCH 66/84] fix: derivatives of one pixel wide or high images do
 not read outside of the image

---
 src/nx_image.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/nx_image.c b/src/nx_image.c
index 59300d5..31f00cc 100644
--- a/src/nx_image.c
+++ b/src/nx_image.c
@@ -1222,6 +1222,11 @@ void nx_image_filter_box(struct NXImage *dest, const struct NXImage *src,
                 nx_image_resize(dest, src->width, src->height, NX_IMAGE_STRIDE_DEFAULT, \
                                 src->type, NX_IMAGE_FLOAT32);           \
                                                                         \
+                if (src->width < 2) {                                   \
+                        nx_image_set_zero(dest);                        \
+                        return;                                         \
+                }                                                       \
+                                                                        \
                 for (int y = 0; y < src->height; ++y) {                 \
                         const T *src_row = src->data.F + y*src->row_stride; \
                         float *dest_row = dest->data.f32 + y*dest->row_stride; \
@@ -1261,6 +1266,8 @@ void nx_image_deriv_x(struct NXImage *dest, const struct NXImage *src)
                 nx_image_resize(dest, src->width, src->height, NX_IMAGE_STRIDE_DEFAULT, \
                                 src->type, NX_IMAGE_FLOAT32);           \
                 nx_image_set_zero(dest);                                \
+                if (src->height < 2)                                    \
+                        return;                                         \
                                                                         \
                 for (int x = 0; x < dest->width; ++x) {                 \
                         dest->data.f32[x] = 2.0f * (src->data.F[x + src->row_stride] \
-- 
2.43.0


From c51adce496f95a69040bc6004efcf41da4ba89e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:24 +0000
Subject: [PATCH 67/84] fix: out of memory in corner suppression is a fatal
 error, not a crash

---
 src/fast/fast_nonmax.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fast/fast_nonmax.c b/src/fast/fast_nonmax.c
index a9c74a7..a7d4602 100644
--- a/src/fast/fast_nonmax.c
+++ b/src/fast/fast_nonmax.c
@@ -28,6 +28,7 @@
  */
 #include "stdlib.h"
 
+#include "virg/nexus/nx_alloc.h"
 #include "virg/nexus/nx_keypoint.h"
 
 #define Compare(X, Y) ((X)>=(Y))
@@ -57,7 +58,7 @@ void fast_nonmax_suppression(int *ret_num_nonmax, struct NXKeypoint *ret_nonmax,
 	   (the corners are output in raster scan order). A beginning of -1 signifies
 	   that there are no corners on that row. */
 	last_row = corners[num_corners-1].y;
-	row_start = (int*)malloc((last_row+1)*sizeof(int));
+	row_start = NX_NEW_I(last_row+1);
 
 	for(i=0; i < last_row+1; i++)
 		row_start[i] = -1;
-- 
2.43.0


From 0b9963143edd77b88c261b4d3d2e61e2b638a460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:24 +0000
Subject: [PATCH 68/84] fix: zeroed allocations whose size does not fit fail
 instead of returning a short block

---
 src/nx_alloc.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/nx_alloc.c b/src/nx_alloc.c
index 19efc90..edc3cb3 100644
--- a/src/nx_alloc.c
+++ b/src/nx_alloc.c
@@ -25,6 +25,7 @@
  */
 #include "virg/nexus/nx_alloc.h"
 
+#include <stdint.h>
 #include <string.h>
 #include <stdalign.h>
 
@@ -72,6 +73,11 @@ void *nx_malloc(size_t sz)
 
 void *nx_calloc(size_t n_memb, size_t sz)
 {
+        if (sz != 0 && n_memb > SIZE_MAX / sz) {
+                NX_ERROR(NX_LOG_TAG, "Error allocating %zu blocks of %zu bytes, out of memory!", n_memb, sz);
+                return NULL;
+        }
+
         const size_t length = n_memb * sz;
         void *ptr = nx_malloc(length);
         if (ptr) {
-- 
2.43.0


From 02cff7ba84d0b8c1a1a7e200d222583bb57dcf1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:24 +0000
Subject: [PATCH 69/84] fix: reading a string whose stored length cannot be
 held reports an error

---
 src/nx_string.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nx_string.c b/src/nx_string.c
index dd107f3..f69bef6 100644
--- a/src/nx_string.c
+++ b/src/nx_string.c
@@ -118,6 +118,9 @@ int nx_strread(char **s, size_t size, FILE *stream)
         if (fread(&ls, sizeof(ls), 1, stream) != 1)
                 return 1;
 
+        if (ls == SIZE_MAX)
+                return 1;
+
         if (ls >= size)
                 *s = nx_xrealloc(*s, (ls+1)*sizeof(**s));
 
-- 
2.43.0


From c5c9857103146058ce74e5e78da2c4a9214d66e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:24 +0000
Subject: [PATCH 70/84] fix: reading a string array of negative length reports
 an error

---
 src/nx_string_array.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/nx_string_array.c b/src/nx_string_array.c
index c6127ed..0efea0d 100644
--- a/src/nx_string_array.c
+++ b/src/nx_string_array.c
@@ -223,6 +223,11 @@ int nx_string_array_read(struct NXStringArray *sa, FILE *stream)
                 return -1;
         }
 
+        if (size < 0) {
+                NX_ERROR(NX_LOG_TAG, "Invalid string array length %d in stream", size);
+                return -1;
+        }
+
         nx_string_array_resize(sa, size);
         for (int i = 0; i < sa->size; ++i)
                 if (nx_strread(&sa->elems[i], 0, stream) != 0) {
-- 
2.43.0


From 05a191e55e5d0143d77ffb1fd5a4534ccdcd95de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:59 +0000
Subject: [PATCH 71/84] fix: JSON text followed by something else is refused

---
 src/nx_json_parser.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/nx_json_parser.c b/src/nx_json_parser.c
index 01eabb9..8d1d341 100644
--- a/src/nx_json_parser.c
+++ b/src/nx_json_parser.c
@@ -225,5 +225,10 @@ struct NXJSONNode *nx_json_parser_parse(struct NXJSONParser *jp)
         jp->root = NULL;
         jp->current_node = NULL;
         nx_json_parser_parse_json(jp);
+
+        if (jp->jtoken->type != NX_JTT_EOF)
+                NX_FATAL(NX_LOG_TAG, "Expecting end of JSON text; found %s",
+                         nx_json_token_to_string(jp->jtoken));
+
         return jp->root;
 }
-- 
2.43.0


From 529c1a4b31fb7f743a2fbf1c3779a796c308ba0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:20 +0000
Subject: [PATCH 72/84] fix: writing a string array with an unset element
 reports an error

---
 src/nx_string_array.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nx_string_array.c b/src/nx_string_array.c
index 0efea0d..52b3e32 100644
--- a/src/nx_string_array.c
+++ b/src/nx_string_array.c
@@ -196,9 +196,9 @@ int nx_string_array_write(const struct NXStringArray *sa, FILE *stream)
         }
 
         for (int i = 0; i < sa->size; ++i)
-                if (nx_strwrite(sa->elems[i], stream) != 0) {
+                if (!sa->elems[i] || nx_strwrite(sa->elems[i], stream) != 0) {
                         NX_ERROR(NX_LOG_TAG, "Error writing string array element %d to stream: '%s'",
-                                 i, sa->elems[i]);
+                                 i, sa->elems[i] ? sa->elems[i] : "(unset)");
                         return -1;
                 }
 
-- 
2.43.0


From bd4ba5da4470fb164c0549758a214d58c388fb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:34 +0000
Subject: [PATCH 73/84] fix: load pyvirg option files that contain no options

---
 pyvirg/virg/nexus/options.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvirg/virg/nexus/options.py b/pyvirg/virg/nexus/options.py
index 962ad92..c14e537 100644
--- a/pyvirg/virg/nexus/options.py
+++ b/pyvirg/virg/nexus/options.py
@@ -115,7 +115,7 @@ class Options:
             dict = vars(res)
         else:
             with open(res.from_yaml) as fin:
-                dict = yaml.load(fin, Loader=yaml.Loader)
+                dict = yaml.load(fin, Loader=yaml.Loader) or {}
 
         self.from_dict(dict)
 
@@ -138,7 +138,7 @@ class Options:
 
     def load_yaml(self, filename):
         with open(filename) as fin:
-            dict = yaml.load(fin, Loader=yaml.Loader)
+            dict = yaml.load(fin, Loader=yaml.Loader) or {}
 
         self.from_dict(dict)
         return dict
-- 
2.43.0


From 01365bb860d421ac9542c6b652e0c03430cb9f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:34 +0000
Subject: [PATCH 74/84] fix: keep every line of a pyvirg option group title in
 the YAML comment

---
 pyvirg/virg/nexus/options.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvirg/virg/nexus/options.py b/pyvirg/virg/nexus/options.py
index c14e537..397b5dd 100644
--- a/pyvirg/virg/nexus/options.py
+++ b/pyvirg/virg/nexus/options.py
@@ -63,7 +63,7 @@ class OptionGroup:
         return len(self.items)
 
     def __str__(self):
-        return '# ' + self.title + '\n' + \
+        return '# ' + '\n# '.join(self.title.splitlines()) + '\n' + \
             '\n'.join([str(item) for item in self.items]) + '\n\n'
 
     def add_as_arguments(self, parser):
-- 
2.43.0


From 49bf27253819428116a0fafa6e0f86bd6f6386dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:34 +0000
Subject: [PATCH 75/84] fix: do not share default item lists between pyvirg
 option groups

---
 pyvirg/virg/nexus/options.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyvirg/virg/nexus/options.py b/pyvirg/virg/nexus/options.py
index 397b5dd..a9bd704 100644
--- a/pyvirg/virg/nexus/options.py
+++ b/pyvirg/virg/nexus/options.py
@@ -52,9 +52,9 @@ class OptionGroup:
     It exists mostly for pretty printing when exporting to other formats such as
     YAML.
     """
-    def __init__(self, title, items=[]):
+    def __init__(self, title, items=None):
         self.title = title
-        self.items = items
+        self.items = [] if items is None else items
 
     def __getitem__(self, idx):
         return self.items[idx]
@@ -86,8 +86,8 @@ class Options:
     Args:
         options (list of :class:`OptionGroup`): option items
     """
-    def __init__(self, options=[]):
-        self.options = options
+    def __init__(self, options=None):
+        self.options = [] if options is None else options
 
     def __str__(self):
         return ''.join([str(g) for g in self.options])
-- 
2.43.0


From 5ba792249e2d4987dd146039a969da1d1aa4c6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:17 +0000
Subject: [PATCH 76/84] fix: free JSON trees with any number of siblings

---
 src/nx_json_tree.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/nx_json_tree.c b/src/nx_json_tree.c
index 5003dd6..c742f71 100644
--- a/src/nx_json_tree.c
+++ b/src/nx_json_tree.c
@@ -196,11 +196,12 @@ struct NXJSONNode *nx_json_node_new_null()
 
 void nx_json_tree_free(struct NXJSONNode *root)
 {
-        if (root != NULL) {
+        while (root != NULL) {
+                struct NXJSONNode *right = root->right;
                 nx_json_tree_free(root->down);
-                nx_json_tree_free(root->right);
                 nx_free(root->text);
                 nx_free(root);
+                root = right;
         }
 }
 
-- 
2.43.0


From b11d20379a60c75c9514cd132aa20c92c9d94a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:17 +0000
Subject: [PATCH 77/84] fix: refuse JSON texts nested too deeply for the stack

---
 src/nx_json_parser.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/nx_json_parser.c b/src/nx_json_parser.c
index 8d1d341..6f4a27c 100644
--- a/src/nx_json_parser.c
+++ b/src/nx_json_parser.c
@@ -28,6 +28,9 @@
 #include "virg/nexus/nx_alloc.h"
 #include "virg/nexus/nx_log.h"
 
+/* Nesting is parsed, printed and freed recursively, bound it to the stack */
+#define NX_JSON_MAX_DEPTH 10000
+
 struct NXJSONParser
 {
         struct NXJSONLexer *jlex;
@@ -35,6 +38,8 @@ struct NXJSONParser
 
         struct NXJSONNode *root;
         struct NXJSONNode *current_node;
+
+        int depth;
 };
 
 static void nx_json_parser_consume(struct NXJSONParser *jp)
@@ -114,6 +119,18 @@ static void nx_json_parser_parse_number(struct NXJSONParser *jp)
                          nx_json_token_to_string(jp->jtoken));
 }
 
+static void nx_json_parser_enter(struct NXJSONParser *jp)
+{
+        if (++jp->depth > NX_JSON_MAX_DEPTH)
+                NX_FATAL(NX_LOG_TAG, "JSON text is nested deeper than %d levels",
+                         NX_JSON_MAX_DEPTH);
+}
+
+static void nx_json_parser_leave(struct NXJSONParser *jp)
+{
+        --jp->depth;
+}
+
 static void nx_json_parser_parse_value(struct NXJSONParser *jp)
 {
         switch (jp->jtoken->type) {
@@ -151,6 +168,7 @@ void nx_json_parser_parse_array(struct NXJSONParser *jp)
                 nx_json_parser_add_child_node(jp, n);
         }
 
+        nx_json_parser_enter(jp);
         nx_json_parser_match(jp, NX_JTT_LSBRAC);
 
         if (jp->jtoken->type == NX_JTT_RSBRAC) {
@@ -164,6 +182,7 @@ void nx_json_parser_parse_array(struct NXJSONParser *jp)
 
                 nx_json_parser_match(jp, NX_JTT_RSBRAC);
         }
+        nx_json_parser_leave(jp);
 }
 
 static void nx_json_parser_parse_pair(struct NXJSONParser *jp)
@@ -193,6 +212,7 @@ void nx_json_parser_parse_object(struct NXJSONParser *jp)
                 nx_json_parser_add_child_node(jp, n);
         }
 
+        nx_json_parser_enter(jp);
         nx_json_parser_match(jp, NX_JTT_LCBRAC);
 
         if (jp->jtoken->type == NX_JTT_RCBRAC) {
@@ -206,6 +226,7 @@ void nx_json_parser_parse_object(struct NXJSONParser *jp)
 
                 nx_json_parser_match(jp, NX_JTT_RCBRAC);
         }
+        nx_json_parser_leave(jp);
 }
 
 static void nx_json_parser_parse_json(struct NXJSONParser *jp)
@@ -224,6 +245,7 @@ struct NXJSONNode *nx_json_parser_parse(struct NXJSONParser *jp)
 {
         jp->root = NULL;
         jp->current_node = NULL;
+        jp->depth = 0;
         nx_json_parser_parse_json(jp);
 
         if (jp->jtoken->type != NX_JTT_EOF)
-- 
2.43.0


From c5098eaca07b77828fa285c79b85cb461e25bb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:40 +0000
Subject: [PATCH 78/84] fix: JSON arrays have no elements at negative positions

---
 src/nx_json_tree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_json_tree.c b/src/nx_json_tree.c
index c742f71..2391fa4 100644
--- a/src/nx_json_tree.c
+++ b/src/nx_json_tree.c
@@ -242,7 +242,7 @@ struct NXJSONNode *nx_json_array_get(struct NXJSONNode *jarray, int position, in
             return NULL;
 
         struct NXJSONNode *n = jarray->down;
-        if (n == NULL)
+        if (n == NULL || position < 0)
                 return NULL;
 
         while (n != NULL && position-- > 0)
-- 
2.43.0


From e71a9bfe63438f600e980506f9b41f7f5955320d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:25 +0000
Subject: [PATCH 79/84] fix: print the call stack of fatal errors when memory
 is exhausted

---
 src/nx_log_c_impl.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nx_log_c_impl.c b/src/nx_log_c_impl.c
index 87910ce..0dfc294 100644
--- a/src/nx_log_c_impl.c
+++ b/src/nx_log_c_impl.c
@@ -60,7 +60,10 @@ static inline void print_call_stack()
 
     fprintf(LOG_STREAM, "Call stack:\n");
     for (int i = 0; i < bt_sz; ++i) {
-        fprintf(LOG_STREAM, "   (%2d) %s\n", i, bt_symbols[i]);
+        if (bt_symbols)
+            fprintf(LOG_STREAM, "   (%2d) %s\n", i, bt_symbols[i]);
+        else // out of memory
+            fprintf(LOG_STREAM, "   (%2d) [%p]\n", i, bt_buffer[i]);
     }
 
     free(bt_symbols);
-- 
2.43.0


From 173c8a6f2791cecabd659df04330c8680b7f4e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:07 +0000
Subject: [PATCH 80/84] fix: refuse panorama images that can not be connected
 to the reference

---
 tools/nx_panorama_builder.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tools/nx_panorama_builder.c b/tools/nx_panorama_builder.c
index 0558cb3..b732556 100644
--- a/tools/nx_panorama_builder.c
+++ b/tools/nx_panorama_builder.c
@@ -261,6 +261,9 @@ int *nx_panorama_builder_find_shortest_paths(int n, double* weights, int source)
                         }
                 }
 
+                if (current < 0) // the rest can not be reached
+                        break;
+
                 visited[current] = NX_TRUE;
                 n_not_visited--;
 
@@ -398,6 +401,9 @@ void nx_panorama_builder_init(struct NXPanoramaBuilder *builder)
                 nx_dmat3_eye(builder->H_to_ref[i]);
                 int node = i;
                 int next = next_node[node];
+                if (next < 0)
+                        NX_FATAL(NX_LOG_TAG, "Can not connect image %s to the rest of the panorama!",
+                                 nx_string_array_get(builder->image_names, i));
                 fprintf(stderr, "%d", node);
                 while (node != next) {
                         fprintf(stderr, " .. %d", next);
-- 
2.43.0


From a513ff85a6538454ba6e6a49a2d581b21644c4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:07 +0000
Subject: [PATCH 81/84] fix: free the visited flags of the panorama path search

---
 tools/nx_panorama_builder.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/nx_panorama_builder.c b/tools/nx_panorama_builder.c
index b732556..3f3bb81 100644
--- a/tools/nx_panorama_builder.c
+++ b/tools/nx_panorama_builder.c
@@ -282,6 +282,7 @@ int *nx_panorama_builder_find_shortest_paths(int n, double* weights, int source)
                 }
         }
 
+        nx_free(visited);
         nx_free(node_val);
 
         return next_node;
-- 
2.43.0


From 045d15c56d489c5a8aee96007f0c9bb864b33866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:34 +0000
Subject: [PATCH 82/84] fix: do not repeat the first row and column of images
 outside them in panoramas

---
 tools/nx_panorama_builder.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/nx_panorama_builder.c b/tools/nx_panorama_builder.c
index 3f3bb81..4cc6899 100644
--- a/tools/nx_panorama_builder.c
+++ b/tools/nx_panorama_builder.c
@@ -502,8 +502,8 @@ uchar nx_panorama_builder_composite_value(struct NXPanoramaBuilder *builder,
                 struct NXImage *img = builder->images[i];
                 float xp = xpc[0];
                 float yp = xpc[1];
-                int xpi = xp;
-                int ypi = yp;
+                int xpi = floorf(xp);
+                int ypi = floorf(yp);
                 if (xpi >= 0 && xpi < img->width
                     && ypi >= 0 && ypi < img->height) {
                         v = img->data.uc[ypi * img->row_stride + xpi];
-- 
2.43.0


From 4d1b04f4dbe98ebb14a17a3fc95ba158b777b71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:56 +0000
Subject: [PATCH 83/84] fix: release the detector and the ground truth file of
 nx-fit-homography

---
 tools/nx_fit_homography_main.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/nx_fit_homography_main.c b/tools/nx_fit_homography_main.c
index 9ec9b63..7657cec 100644
--- a/tools/nx_fit_homography_main.c
+++ b/tools/nx_fit_homography_main.c
@@ -379,6 +379,8 @@ compute_keypoints_and_descriptors(struct NXOptions *opt,
                                stores[i].n_keys, i == 0 ? "left" : "right");
         }
 
+        nx_sift_detector_free(detector);
+
         return stores;
 }
 
@@ -444,6 +446,7 @@ double *load_ground_truth_from_options(struct NXOptions *opt,
         FILE *stream = nx_xfopen(gt_filename, "r");
         int m, n;
         double *h_gt = nx_dmat_xread(stream, &m, &n);
+        nx_xfclose(stream, gt_filename);
         if (m != 3 || n != 3)
                 NX_FATAL(NX_LOG_TAG, "Ground truth matrix must be 3-by-3, loaded %d-by-%d from %s",
                          m, n, gt_filename);
-- 
2.43.0


From 68567ebf504502de0710e7cd6cf6658e39faa657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:56 +0000
Subject: [PATCH 84/84] fix: use the homogeneous scale of validation points in
 nx-fit-homography

---
 tools/nx_fit_homography_main.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tools/nx_fit_homography_main.c b/tools/nx_fit_homography_main.c
index 7657cec..ce4d429 100644
--- a/tools/nx_fit_homography_main.c
+++ b/tools/nx_fit_homography_main.c
@@ -417,10 +417,10 @@ struct NXPointMatch2D *load_validation_points(struct NXOptions *opt, int *n_corr
                 struct NXPointMatch2D *corr = NX_NEW(*n_corr, struct NXPointMatch2D);
                 memset(corr, 0, *n_corr * sizeof(struct NXPointMatch2D));
                 for (int i = 0; i < *n_corr; ++i) {
-                        corr[i].x[0] = pts[i * 6 + 0];
-                        corr[i].x[1] = pts[i * 6 + 1];
-                        corr[i].xp[0] = pts[i * 6 + 3];
-                        corr[i].xp[1] = pts[i * 6 + 4];
+                        corr[i].x[0] = pts[i * 6 + 0] / pts[i * 6 + 2];
+                        corr[i].x[1] = pts[i * 6 + 1] / pts[i * 6 + 2];
+                        corr[i].xp[0] = pts[i * 6 + 3] / pts[i * 6 + 5];
+                        corr[i].xp[1] = pts[i * 6 + 4] / pts[i * 6 + 5];
                         corr[i].match_cost = 0;
                         corr[i].sigma_x  = 0.1;
                         corr[i].sigma_xp = 0.1;
-- 
2.43.0

