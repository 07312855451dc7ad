// P02: data frame operation sequences; P03: CSV save/load round trip.
#include "df_model.hh"
using namespace mc;

static void m_set_factor(MCol &c, int r, const std::string &v) {
    bool seen = false;
    for (auto &l : c.levels) seen |= l == v;
    if (!seen) c.levels.push_back(v);
    c.cells[r].na = false; c.cells[r].s = v;
}
static void m_add_col(MFrame &m, NXDataColumnType t, const std::string &l) {
    MCol c; c.type = t; c.label = l; c.cells.resize(m.rows); m.cols.push_back(c);
}
static void m_add_row(MFrame &m) { for (auto &c : m.cols) c.cells.push_back(MCell()); m.rows++; }
static void m_make_factor(MFrame &m, int ci) {
    MCol &c = m.cols[ci];
    if (c.type == NX_DCT_FACTOR) return;
    MCol n; n.type = NX_DCT_FACTOR; n.label = c.label; n.cells.resize(m.rows);
    for (int r = 0; r < m.rows; ++r) {
        const MCell &x = c.cells[r];
        if (x.na) continue;
        char b[64];
        std::string v;
        switch (c.type) {
        case NX_DCT_STRING: v = x.s; break;
        case NX_DCT_INT: snprintf(b, 64, "%d", x.i); v = b; break;
        case NX_DCT_DOUBLE: snprintf(b, 64, "%.17g", x.d); v = b; break;
        default: v = x.b ? "true" : "false";
        }
        m_set_factor(n, r, v);
    }
    m.cols[ci] = n;
}
// sets the cell of the model and of the frame to the k-th value of the column's type
static const char *SV[] = {"a", "", "b\"c", "a"};
static const int IV[] = {0, -7, INT_MAX, INT_MIN};
static const double DV[] = {0.5, -0.0, 1e300, 3};
static void set_cell(MFrame &m, NXDataFrame *df, int r, int c, int k) {
    MCell &x = m.cols[c].cells[r];
    switch (m.cols[c].type) {
    case NX_DCT_STRING: x.na = false; x.s = SV[k]; nx_data_frame_set_string(df, r, c, SV[k]); break;
    case NX_DCT_FACTOR: m_set_factor(m.cols[c], r, SV[k]); nx_data_frame_set_factor(df, r, c, SV[k]); break;
    case NX_DCT_INT: x.na = false; x.i = IV[k]; nx_data_frame_set_int(df, r, c, IV[k]); break;
    case NX_DCT_DOUBLE: x.na = false; x.d = DV[k]; nx_data_frame_set_double(df, r, c, DV[k]); break;
    default: x.na = false; x.b = k & 1; nx_data_frame_set_bool(df, r, c, k & 1 ? NX_TRUE : NX_FALSE);
    }
}
// every getter on every cell: only the matching one on a present value may return
static void check_misuse(const MFrame &m, NXDataFrame *df) {
    for (int c = 0; c < (int)m.cols.size(); ++c)
        for (int r = 0; r < m.rows; ++r)
            for (int t = 0; t < 5; ++t) {
                bool ok = guarded([&] {
                    switch (t) {
                    case NX_DCT_STRING: nx_data_frame_get_string(df, r, c); break;
                    case NX_DCT_INT: nx_data_frame_get_int(df, r, c); break;
                    case NX_DCT_DOUBLE: nx_data_frame_get_double(df, r, c); break;
                    case NX_DCT_BOOL: nx_data_frame_get_bool(df, r, c); break;
                    case NX_DCT_FACTOR: nx_data_frame_get_factor(df, r, c); break;
                    }
                });
                step();
                bool want = m.cols[c].type == t && !m.cols[c].cells[r].na;
                if (ok != want) fail("%s: reading cell %d,%d as type %d %s", show_frame(m).c_str(), r, c, t, ok ? "returns a value" : "aborts");
            }
}
// wrong-type writes are refused and change nothing
static void check_wrong_set(const MFrame &m, NXDataFrame *df) {
    for (int c = 0; c < (int)m.cols.size(); ++c)
        for (int r = 0; r < m.rows; ++r)
            for (int t = 0; t < 5; ++t) if (t != m.cols[c].type) {
                bool ok = guarded([&] {
                    switch (t) {
                    case NX_DCT_STRING: nx_data_frame_set_string(df, r, c, "zz"); break;
                    case NX_DCT_INT: nx_data_frame_set_int(df, r, c, 99); break;
                    case NX_DCT_DOUBLE: nx_data_frame_set_double(df, r, c, 9.9); break;
                    case NX_DCT_BOOL: nx_data_frame_set_bool(df, r, c, NX_TRUE); break;
                    case NX_DCT_FACTOR: nx_data_frame_set_factor(df, r, c, "zz"); break;
                    }
                });
                step();
                if (ok) fail("%s: writing type %d to cell %d,%d is not refused", show_frame(m).c_str(), t, r, c);
            }
}

static const int NOPS = 12;
static bool apply(int op, MFrame &m, NXDataFrame *df, int stepno) {
    static const char *LB[] = {"x", "", "a \"b\"", "x", "long label", "y", "z", "w"};
    int nc = m.cols.size();
    if (op < 5) {
        m_add_col(m, (NXDataColumnType)op, LB[stepno % 8]);
        nx_data_frame_add_column(df, (NXDataColumnType)op, LB[stepno % 8]);
    } else if (op == 5) {
        int id = nx_data_frame_add_row(df);
        m_add_row(m);
        if (id != m.rows - 1) fail("add_row returned %d, expected %d", id, m.rows - 1);
    } else if (op <= 8) { // set value, in the last / first row, of the last / first column
        if (!nc || !m.rows) return false;
        int r = op == 8 ? 0 : m.rows - 1, c = op == 7 ? 0 : nc - 1;
        set_cell(m, df, r, c, (stepno + op) % 4);
    } else if (op == 9) {
        if (!nc || !m.rows) return false;
        nx_data_frame_set_na(df, m.rows - 1, nc - 1);
        m.cols[nc - 1].cells[m.rows - 1] = MCell();
    } else if (op == 10) {
        if (!nc) return false;
        nx_data_frame_make_factor(df, 0); m_make_factor(m, 0);
    } else {
        if (nc < 2) return false;
        nx_data_frame_make_factor(df, nc - 1); m_make_factor(m, nc - 1);
    }
    return true;
}

static void p02() {
    int D = pick(6, 7);
    uint64_t n = 1; for (int i = 0; i < D; ++i) n *= NOPS;
    for (uint64_t k = 0; k < n; ++k) {
        if (!begin("op-sequences")) continue;
        int ops[8]; uint64_t v = k;
        for (int i = 0; i < D; ++i) { ops[i] = v % NOPS; v /= NOPS; }
        describe([&] { std::string s = "ops"; for (int i = 0; i < D; ++i) s += fmt(" %d", ops[i]); return s; });
        MFrame m;
        NXDataFrame *df = nx_data_frame_alloc();
        bool bad = false;
        for (int i = 0; i < D && !bad; ++i) {
            if (!apply(ops[i], m, df, i)) break;
            std::string d = diff_frame(m, df);
            state(hash_frame(m));
            if (!d.empty()) { fail("after step %d (op %d): %s; model %s", i, ops[i], d.c_str(), show_frame(m).c_str()); bad = true; }
        }
        if (!bad) {
            check_misuse(m, df); check_wrong_set(m, df);
            std::string d = diff_frame(m, df);
            if (!d.empty()) fail("after refused accesses: %s", d.c_str());
        }
        nx_data_frame_free(df);
    }
    // variadic rows: every ordered choice of 3 column types
    for (int a = 0; a < 5; ++a) for (int b = 0; b < 5; ++b) for (int c = 0; c < 5; ++c)
        if (begin("append-row")) {
            describe([&] { return fmt("append_row/set with column types %d %d %d", a, b, c); });
            NXDataFrame *df = nx_data_frame_alloc();
            NXDataColumnType ty[3] = {(NXDataColumnType)a, (NXDataColumnType)b, (NXDataColumnType)c};
            const char *lb[3] = {"p", "q", "p"};
            nx_data_frame_add_columns(df, 3, ty, lb);
            MFrame m; for (int i = 0; i < 3; ++i) m_add_col(m, ty[i], lb[i]);
            for (int r = 0; r < 4; ++r) {
                auto call = [&](auto x, auto y, auto z) {
                    if (r < 3) nx_data_frame_append_row(df, x, y, z); else nx_data_frame_set(df, 1, x, y, z);
                };
                auto third = [&](auto x, auto y) {
                    switch (c) { case NX_DCT_INT: call(x, y, IV[r]); break; case NX_DCT_DOUBLE: call(x, y, DV[r]); break;
                    case NX_DCT_BOOL: call(x, y, (NXBool)(r & 1)); break; default: call(x, y, SV[r]); } };
                auto second = [&](auto x) {
                    switch (b) { case NX_DCT_INT: third(x, IV[r]); break; case NX_DCT_DOUBLE: third(x, DV[r]); break;
                    case NX_DCT_BOOL: third(x, (NXBool)(r & 1)); break; default: third(x, SV[r]); } };
                switch (a) { case NX_DCT_INT: second(IV[r]); break; case NX_DCT_DOUBLE: second(DV[r]); break;
                case NX_DCT_BOOL: second((NXBool)(r & 1)); break; default: second(SV[r]); }
                if (r < 3) m_add_row(m);
                int row = r < 3 ? r : 1;
                for (int i = 0; i < 3; ++i) {
                    MCell &x = m.cols[i].cells[row];
                    x.na = false; x.i = IV[r]; x.d = DV[r]; x.b = r & 1;
                    if (ty[i] == NX_DCT_FACTOR) m_set_factor(m.cols[i], row, SV[r]); else x.s = SV[r];
                }
                std::string d = diff_frame(m, df);
                state(hash_frame(m));
                if (!d.empty()) fail("row %d: %s", r, d.c_str());
            }
            nx_data_frame_free(df);
        }
    // growth: rows and columns through every capacity threshold, interleaved
    for (int nc = 1; nc <= pick(30, 60); ++nc) for (int t = 0; t < 5; ++t)
        if (begin("growth")) {
            describe([&] { return fmt("grow to %d columns and 60 rows, type %d", nc, t); });
            MFrame m; NXDataFrame *df = nx_data_frame_alloc();
            size_t rows = 0;
            for (int c = 0; c < nc; ++c) {
                nx_data_frame_add_column(df, (NXDataColumnType)t, "l"); m_add_col(m, (NXDataColumnType)t, "l");
                while (rows < (size_t)(60 * (c + 1) / nc)) { nx_data_frame_add_row(df); m_add_row(m); ++rows; set_cell(m, df, rows - 1, c, rows % 4); }
            }
            std::string d = diff_frame(m, df);
            state(hash_frame(m));
            if (!d.empty()) fail("%s", d.c_str());
            for (int c = 0; c < nc; c += 3) { nx_data_frame_make_factor(df, c); m_make_factor(m, c); }
            d = diff_frame(m, df);
            if (!d.empty()) fail("after make_factor: %s", d.c_str());
            nx_data_frame_free(df);
        }
    // cells written from what the frame itself handed out: whole values and their tails, in place and across, and appended rows
    for (int k = 0; k < 36 * 36 * 36; ++k)
        if (begin("own-values")) {
            describe([&] { return fmt("cells copied from cells, sequence %d", k); });
            size_t h0 = heap();
            {
                MFrame m; NXDataFrame *df = nx_data_frame_alloc();
                NXDataColumnType ty[2] = {NX_DCT_STRING, NX_DCT_FACTOR};
                for (int c = 0; c < 2; ++c) { nx_data_frame_add_column(df, ty[c], c ? "f" : "s"); m_add_col(m, ty[c], c ? "f" : "s"); }
                for (int r = 0; r < 2; ++r) { nx_data_frame_append_row(df, r ? "second value" : "first", r ? "level two" : "one"); m_add_row(m); m.cols[0].cells[r].na = false; m.cols[0].cells[r].s = r ? "second value" : "first"; m_set_factor(m.cols[1], r, r ? "level two" : "one"); }
                auto get = [&](int cell) { int r = cell & 1, c = cell >> 1; return c ? nx_data_frame_get_factor(df, r, 1) : nx_data_frame_get_string(df, r, 0); };
                for (int v = k, i = 0; i < 3; ++i, v /= 36) {
                    int op = v % 36, from = op & 3, to = op >> 2 & 3, off = op >> 4 & 1; std::string w;
                    if (op < 32) {
                        const char *q = get(from); if (off && *q) ++q; w = q; int r = to & 1;
                        if (to >> 1) { nx_data_frame_set_factor(df, r, 1, q); m_set_factor(m.cols[1], r, w); } else { nx_data_frame_set_string(df, r, 0, q); m.cols[0].cells[r].s = w; }
                    } else {
                        const char *q = get(from), *u = get(3 - from); w = q; std::string x = u; m_add_row(m);
                        if (nx_data_frame_append_row(df, q, u) != m.rows - 1) fail("appended row has another number");
                        m.cols[0].cells[m.rows - 1].na = false; m.cols[0].cells[m.rows - 1].s = w; m_set_factor(m.cols[1], m.rows - 1, x);
                    }
                    std::string d = diff_frame(m, df); if (!d.empty()) { fail("step %d: %s", i, d.c_str()); break; }
                }
                state(mix(k, m.rows)); nx_data_frame_free(df);
            }
            if (heap() != h0) fail("leaks %ld bytes", (long)(heap() - h0));
        }
    // many factor levels
    for (int nl = 1; nl <= pick(80, 300); ++nl)
        if (begin("levels")) {
            MFrame m; NXDataFrame *df = nx_data_frame_alloc();
            nx_data_frame_add_column(df, NX_DCT_FACTOR, "f"); m_add_col(m, NX_DCT_FACTOR, "f");
            for (int r = 0; r < 2 * nl; ++r) {
                nx_data_frame_add_row(df); m_add_row(m);
                std::string v = fmt("L%d", (r * 7) % nl);
                nx_data_frame_set_factor(df, r, 0, v.c_str()); m_set_factor(m.cols[0], r, v);
            }
            std::string d = diff_frame(m, df);
            if (!d.empty()) fail("%d levels: %s", nl, d.c_str());
            nx_data_frame_free(df);
        }
    // histories on a filled frame: every pair of column types, values overwritten, cleared and converted
    {
        int D2 = pick(4, 5), N2 = 13; uint64_t n2 = 1; for (int i = 0; i < D2; ++i) n2 *= N2;
        static const char *LV[] = {"", "a", "bcdefgh", "a", "0123456789abcdef0123456789abcdef", "x\ny"};
        for (int ta = 0; ta < 5; ++ta) for (int tb = 0; tb < 5; ++tb) for (uint64_t k = 0; k < n2; ++k) if (begin("filled-histories")) {
            describe([&] { std::string t = fmt("columns %d %d ops", ta, tb); uint64_t v = k; for (int i = 0; i < D2; ++i, v /= N2) t += fmt(" %d", (int)(v % N2)); return t; });
            size_t h0 = heap();
            {
                MFrame m; NXDataFrame *df = nx_data_frame_alloc(); nx_data_frame_add_column(df, (NXDataColumnType)ta, "p"); m_add_col(m, (NXDataColumnType)ta, "p");
                nx_data_frame_add_row(df); m_add_row(m); nx_data_frame_add_column(df, (NXDataColumnType)tb, "q"); m_add_col(m, (NXDataColumnType)tb, "q"); nx_data_frame_add_row(df); m_add_row(m);
                for (int r = 0; r < 2; ++r) for (int c = 0; c < 2; ++c) set_cell(m, df, r, c, 2 * r + c);
                uint64_t v = k; std::string d;
                for (int i = 0; i < D2 && d.empty(); ++i, v /= N2) {
                    int o = v % N2, r = (o / 2) % 2, c = o % 2; step();
                    if (o < 4) {
                        const char *w = LV[(i + o) % 6]; MCell &x = m.cols[c].cells[r];
                        switch (m.cols[c].type) {
                        case NX_DCT_STRING: x.na = false; x.s = w; nx_data_frame_set_string(df, r, c, w); break;
                        case NX_DCT_FACTOR: m_set_factor(m.cols[c], r, w); nx_data_frame_set_factor(df, r, c, w); break;
                        default: set_cell(m, df, r, c, (i + o) % 4);
                        }
                    } else if (o < 8) { nx_data_frame_set_na(df, r, c); m.cols[c].cells[r] = MCell(); }
                    else if (o == 8) { nx_data_frame_add_row(df); m_add_row(m); set_cell(m, df, m.rows - 1, i % 2, i % 4); }
                    else if (o == 9) { nx_data_frame_add_column(df, (NXDataColumnType)((ta + i) % 5), "new"); m_add_col(m, (NXDataColumnType)((ta + i) % 5), "new"); }
                    else if (o < 12) { nx_data_frame_make_factor(df, o - 10); m_make_factor(m, o - 10); }
                    else { check_wrong_set(m, df); check_misuse(m, df); }
                    d = diff_frame(m, df); state(hash_frame(m));
                    if (!d.empty()) fail("after step %d (op %d): %s; model %s", i, o, d.c_str(), show_frame(m).c_str());
                }
                nx_data_frame_free(df);
            }
            if (heap() != h0 && k) fail("%zd bytes leak", (ssize_t)(heap() - h0));
        }
    }
    // sizes around powers of two: rows, columns, levels, and lengths of strings and labels
    static const int SZ[] = {100, 126, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 33001, 66003};
    for (int n : SZ) for (int t = 0; t < 5; ++t) for (int kind = 0; kind < 4; ++kind) if (begin("large")) {
        describe([&] { return fmt("%d %s, type %d", n, kind == 0 ? "rows" : kind == 1 ? "columns" : kind == 2 ? "distinct values" : "characters", t); });
        MFrame m; NXDataFrame *df = nx_data_frame_alloc(); NXDataColumnType ty = (NXDataColumnType)t;
        auto put = [&](int r, int c, int v) { MCell &x = m.cols[c].cells[r];
            switch (m.cols[c].type) {
            case NX_DCT_STRING: x.na = false; x.s = fmt("s%d", v); nx_data_frame_set_string(df, r, c, x.s.c_str()); break;
            case NX_DCT_FACTOR: m_set_factor(m.cols[c], r, fmt("s%d", v)); nx_data_frame_set_factor(df, r, c, fmt("s%d", v).c_str()); break;
            case NX_DCT_INT: x.na = false; x.i = v * 1000003; nx_data_frame_set_int(df, r, c, x.i); break;
            case NX_DCT_DOUBLE: x.na = false; x.d = v * 1e-3 + 1e5; nx_data_frame_set_double(df, r, c, x.d); break;
            default: x.na = false; x.b = v % 3 == 1; nx_data_frame_set_bool(df, r, c, x.b ? NX_TRUE : NX_FALSE); } };
        if (kind == 0) { for (int c = 0; c < 2; ++c) { nx_data_frame_add_column(df, ty, "c"); m_add_col(m, ty, "c"); } for (int r = 0; r < n; ++r) { nx_data_frame_add_row(df); m_add_row(m); if (r % 5) put(r, 0, r % 17); put(r, 1, r % 9); } for (int r = 0; r < n; r += 7) { nx_data_frame_set_na(df, r, 1); m.cols[1].cells[r] = MCell(); } }
        else if (kind == 1) { for (int c = 0; c < n; ++c) { nx_data_frame_add_column(df, (NXDataColumnType)((t + c) % 5), fmt("c%d", c).c_str()); m_add_col(m, (NXDataColumnType)((t + c) % 5), fmt("c%d", c)); } for (int r = 0; r < 2; ++r) { nx_data_frame_add_row(df); m_add_row(m); for (int c = r; c < n; c += 2) put(r, c, r + c); } }
        else if (kind == 2) { if (n > 1100 && ty == NX_DCT_FACTOR) { nx_data_frame_free(df); continue; } nx_data_frame_add_column(df, ty, "c"); m_add_col(m, ty, "c"); for (int r = 0; r < n; ++r) { nx_data_frame_add_row(df); m_add_row(m); put(r, 0, r); } }
        else { std::string w(n, 'x'), l(n, 'y'); for (int i = 0; i < n; ++i) { w[i] = 'a' + i % 26; l[i] = 'A' + i % 24; } nx_data_frame_add_column(df, ty, l.c_str()); m_add_col(m, ty, l); for (int r = 0; r < 3; ++r) { nx_data_frame_add_row(df); m_add_row(m); std::string z = w.substr(0, n - r); MCell &x = m.cols[0].cells[r];
            if (ty == NX_DCT_STRING) { x.na = false; x.s = z; nx_data_frame_set_string(df, r, 0, z.c_str()); } else if (ty == NX_DCT_FACTOR) { m_set_factor(m.cols[0], r, z); nx_data_frame_set_factor(df, r, 0, z.c_str()); } else put(r, 0, n + r); } }
        std::string d = diff_frame(m, df); step(); state(hash_frame(m)); if (!d.empty()) fail("%s", d.c_str());
        for (int c = 0; c < (int)m.cols.size() && (kind != 2 || n < 1100); c += 2) { nx_data_frame_make_factor(df, c); m_make_factor(m, c); }
        d = diff_frame(m, df); if (!d.empty()) fail("after make_factor: %s", d.c_str());
        nx_data_frame_free(df);
    }
    // no leak: whole life cycle returns the heap to where it was
    for (int t = 0; t < 5; ++t) for (int mf = 0; mf < 2; ++mf)
        if (begin("leaks")) {
            size_t h[3];
            for (int k = 0; k < 3; ++k) {
                NXDataFrame *df = nx_data_frame_alloc();
                {
                    MFrame m;
                    nx_data_frame_add_column(df, (NXDataColumnType)t, "f"); m_add_col(m, (NXDataColumnType)t, "f");
                    for (int r = 0; r < 20; ++r) { nx_data_frame_add_row(df); m_add_row(m); set_cell(m, df, r, 0, r % 4); set_cell(m, df, r / 2, 0, (r + 1) % 4); }
                    nx_data_frame_set_na(df, 3, 0);
                    if (mf) nx_data_frame_make_factor(df, 0);
                }
                nx_data_frame_free(df);
                h[k] = heap();
            }
            if (h[1] != h[2]) fail("type %d make_factor %d: %ld bytes leaked per life cycle", t, mf, (long)(h[2] - h[1]));
        }
}

// ------------------------------------------------------------------ P03
static MFrame reload_model(const MFrame &m, bool factors) {
    MFrame o; o.rows = m.rows;
    for (auto &c : m.cols) {
        MCol n; n.label = c.label; n.cells.resize(m.rows);
        bool any = false, all_int = true;
        for (auto &x : c.cells) if (!x.na) {
            any = true;
            if (c.type == NX_DCT_DOUBLE) {
                char b[64]; snprintf(b, 64, "%.17g", x.d);
                RField f{false, false, b};
                if (ref_type(f) != NX_DCT_INT) all_int = false;
            }
        }
        switch (c.type) {
        case NX_DCT_STRING: case NX_DCT_FACTOR: n.type = NX_DCT_STRING; break;
        case NX_DCT_DOUBLE: n.type = any && all_int ? NX_DCT_INT : NX_DCT_DOUBLE; break;
        default: n.type = c.type;
        }
        if (!any) n.type = NX_DCT_STRING;
        if (factors && n.type == NX_DCT_STRING) n.type = NX_DCT_FACTOR;
        for (int r = 0; r < m.rows; ++r) if (!c.cells[r].na) {
            const MCell &x = c.cells[r];
            if (n.type == NX_DCT_FACTOR) m_set_factor(n, r, x.s);
            else { n.cells[r] = x; if (c.type == NX_DCT_DOUBLE && n.type == NX_DCT_INT) n.cells[r].i = (int)x.d; }
        }
        o.cols.push_back(n);
    }
    return o;
}
static void build(const MFrame &m, NXDataFrame *df) {
    for (auto &c : m.cols) nx_data_frame_add_column(df, c.type, c.label.c_str());
    for (int r = 0; r < m.rows; ++r) nx_data_frame_add_row(df);
    for (int c = 0; c < (int)m.cols.size(); ++c) for (int r = 0; r < m.rows; ++r) {
        const MCell &x = m.cols[c].cells[r];
        if (x.na) continue;
        switch (m.cols[c].type) {
        case NX_DCT_STRING: nx_data_frame_set_string(df, r, c, x.s.c_str()); break;
        case NX_DCT_FACTOR: nx_data_frame_set_factor(df, r, c, x.s.c_str()); break;
        case NX_DCT_INT: nx_data_frame_set_int(df, r, c, x.i); break;
        case NX_DCT_DOUBLE: nx_data_frame_set_double(df, r, c, x.d); break;
        default: nx_data_frame_set_bool(df, r, c, x.b ? NX_TRUE : NX_FALSE);
        }
    }
}
static void roundtrip(const MFrame &m) {
    describe([&] { return show_frame(m); });
    std::string p = tmpfile("rt.csv");
    size_t h0 = heap(); bool clean = true;
    NXDataFrame *df = nx_data_frame_alloc();
    build(m, df);
    static int alt = 0;
    bool file = (alt++ % 64) == 0, xform = (alt / 64) % 2;
    char *buf = nullptr; size_t bl = 0;
    bool saved;
    if (file && xform) { saved = guarded([&] { nx_data_frame_xsave_csv(df, p.c_str()); }); }
    else if (file) saved = nx_data_frame_save_csv(df, p.c_str());
    else { FILE *f = open_memstream(&buf, &bl); saved = nx_data_frame_save_csv_stream(df, f); fclose(f); }
    step();
    if (!saved) fail("saving reports failure: %s", show_frame(m).c_str());
    nx_data_frame_free(df);
    bool na1 = false;
    if (m.cols.size() == 1) for (auto &x : m.cols[0].cells) na1 |= x.na;
    for (int fac = 0; fac < 2 && saved; ++fac) {
        NXDataFrame *re = nullptr;
        FILE *f = nullptr;
        bool ok = guarded([&] {
            if (file) re = xform ? nx_data_frame_xload_csv(p.c_str(), fac ? NX_TRUE : NX_FALSE) : nx_data_frame_load_csv(p.c_str(), fac ? NX_TRUE : NX_FALSE);
            else { f = fmemopen(buf, bl, "r"); re = nx_data_frame_load_csv_stream(f, fac ? NX_TRUE : NX_FALSE); }
        });
        if (f) fclose(f);
        step();
        if (!ok || !re) {
            std::string text = file ? read_file(p) : std::string(buf, bl);
            failk(na1 ? "single-column-na" : "-", "saved frame can not be loaded: %s\nCSV: %s", show_frame(m).c_str(), esc(text).c_str()); clean = false; break; }
        {
        MFrame e = reload_model(m, fac);
        std::string d = diff_frame(e, re);
        if (!d.empty()) fail("saved %s, loaded (factors=%d): %s\nCSV: %s", show_frame(m).c_str(), fac, d.c_str(), esc(file ? read_file(p) : std::string(buf, bl)).c_str());
        state(hash_frame(e));
        }
        nx_data_frame_free(re);
    }
    free(buf);
    if (clean && heap() != h0) fail("saving and loading leaks %ld bytes: %s", (long)(heap() - h0), show_frame(m).c_str());
}
static std::vector<std::string> strings_upto(const std::string &A, int L) {
    std::vector<std::string> o{""};
    size_t b = 0;
    for (int l = 1; l <= L; ++l) { size_t e = o.size(); for (size_t i = b; i < e; ++i) for (char c : A) o.push_back(o[i] + c); b = e; }
    return o;
}
static MCell S(const std::string &s) { MCell x; x.na = false; x.s = s; return x; }
static void files() {
    for (int k = 0; k < 4; ++k) for (int fac = 0; fac < 2; ++fac) if (begin("no-such-file")) {
        std::string p = k & 1 ? tmpfile("nodir") + "/x.csv" : tmpfile("missing.csv"); unlink(p.c_str()); NXDataFrame *re = nullptr; bool x = k & 2;
        describe([&] { return fmt("%sload %s", x ? "x" : "", p.c_str()); }); { FILE *w = fopen(p.c_str(), "r"); if (w) fclose(w); } size_t h0 = heap();
        bool ok = guarded([&] { re = x ? nx_data_frame_xload_csv(p.c_str(), fac ? NX_TRUE : NX_FALSE) : nx_data_frame_load_csv(p.c_str(), fac ? NX_TRUE : NX_FALSE); }); step();
        if (x ? ok : !ok) fail("%s", x ? "no fatal error" : "fatal error"); if (re) fail("a frame is loaded from nowhere");
        if (k & 1) { NXDataFrame *df = nx_data_frame_alloc(); nx_data_frame_add_column(df, NX_DCT_INT, "a"); NXBool sv = NX_FALSE; bool so = guarded([&] { if (x) { nx_data_frame_xsave_csv(df, p.c_str()); sv = NX_TRUE; } else sv = nx_data_frame_save_csv(df, p.c_str()); }); if (x ? so : (!so || sv)) fail("saving to a missing directory succeeds"); nx_data_frame_free(df); }
        if (!x && heap() != h0) fail("leak"); state(k * 2 + fac);
    }
    // a longer file is replaced completely
    for (int n = 0; n < 40; ++n) for (int x = 0; x < 2; ++x) if (begin("overwrite")) {
        std::string p = tmpfile("over.csv"); write_file(p, std::string(n * 100, 'z') + "\n"); NXDataFrame *df = nx_data_frame_alloc(); nx_data_frame_add_column(df, NX_DCT_INT, "a"); for (int i = 0; i < n % 7; ++i) { int r = nx_data_frame_add_row(df); nx_data_frame_set_int(df, r, 0, i * 11); }
        describe([&] { return fmt("%d rows over %d bytes", n % 7, n * 100); }); if (x) nx_data_frame_xsave_csv(df, p.c_str()); else if (!nx_data_frame_save_csv(df, p.c_str())) fail("saving fails"); step(); NXDataFrame *re = nullptr; if (!guarded([&] { re = nx_data_frame_xload_csv(p.c_str(), NX_FALSE); })) fail("cannot be loaded"); else { if (nx_data_frame_n_rows(re) != n % 7) fail("%d rows, expected %d", nx_data_frame_n_rows(re), n % 7); else for (int i = 0; i < n % 7; ++i) if (nx_data_frame_get_int(re, i, 0) != i * 11) fail("row %d", i); nx_data_frame_free(re); } nx_data_frame_free(df); state(n * 2 + x);
    }
}
static void p03() {
    files();
    auto ss = strings_upto("a,\"\n1 ", pick(3, 5));
    ss.push_back("\\n"); ss.push_back("a\\"); ss.push_back("\t"); ss.push_back("true"); ss.push_back("\xff\xfe"); ss.push_back("\r\n"); ss.push_back("nan"); ss.push_back("é");
    for (int type : {NX_DCT_STRING, NX_DCT_FACTOR}) for (auto &s : ss) for (int where = 0; where < 3; ++where)
        if (begin("string-cells")) {
            MFrame m; m.rows = 2;
            MCol c; c.type = (NXDataColumnType)type; c.label = "s"; c.cells = {S(s), S("k")};
            MCol k; k.type = NX_DCT_INT; k.label = "i"; k.cells.resize(2); k.cells[0].na = false; k.cells[0].i = 3;
            if (where == 0) m.cols = {c, k}; else if (where == 1) m.cols = {k, c}; else m.cols = {c};
            roundtrip(m);
        }
    for (auto &s : ss) for (int where = 0; where < 3; ++where) for (int rows = 0; rows < 2; ++rows)
        if (begin("labels")) {
            MFrame m; m.rows = rows;
            MCol c; c.type = NX_DCT_INT; c.label = s; c.cells.resize(rows); for (auto &x : c.cells) { x.na = false; x.i = -5; }
            MCol k = c; k.label = "k";
            if (where == 0) m.cols = {c, k}; else if (where == 1) m.cols = {k, c}; else m.cols = {c};
            roundtrip(m);
        }
    // every double whose bits come from a grid of exponents and mantissas
    std::vector<double> dv;
    static const uint64_t MAN[] = {0, 1, 0x8000000000000ull, 0xfffffffffffffull, 0x999999999999aull, 0x123456789abcdull, 0x5555555555555ull, 0xb504f333f9de6ull};
    for (int ex = 0; ex < 2047; ex += pick(3, 1)) for (uint64_t mn : MAN) for (int sg = 0; sg < 2; ++sg) {
        uint64_t u = ((uint64_t)sg << 63) | ((uint64_t)ex << 52) | mn; double d; memcpy(&d, &u, 8); dv.push_back(d);
    }
    for (double d : {0.0, -0.0, 1.0, -1.0, 2147483647.0, 2147483648.0, -2147483648.0, -2147483649.0, 1e15, 1e16, 1e17, 123456789.0, 0.1, 1.0 / 3, 2.5, (double)NAN, (double)INFINITY, -(double)INFINITY}) dv.push_back(d);
    for (double d : dv) for (double e : {0.5, 1.0})
        if (begin("doubles")) {
            MFrame m; m.rows = 3;
            MCol c; c.type = NX_DCT_DOUBLE; c.label = "d"; c.cells.resize(3);
            c.cells[0].na = false; c.cells[0].d = d; c.cells[2].na = false; c.cells[2].d = e;
            MCol k; k.type = NX_DCT_BOOL; k.label = "b"; k.cells.resize(3); k.cells[1].na = false; k.cells[1].b = d < e;
            // a negative zero in a column of integers comes back as the integer zero
            m.cols = {c, k}; roundtrip(m);
        }
    for (int p = 0; p <= 31; ++p) for (int dlt = -2; dlt <= 2; ++dlt) for (int sg = 0; sg < 2; ++sg)
        if (begin("integers")) {
            long long v = ((1ll << p) + dlt) * (sg ? -1 : 1);
            if (v > INT_MAX || v < INT_MIN) continue;
            MFrame m; m.rows = 2; MCol c; c.type = NX_DCT_INT; c.label = "i"; c.cells.resize(2);
            c.cells[0].na = false; c.cells[0].i = (int)v; c.cells[1].na = false; c.cells[1].i = (int)(v / 2);
            m.cols = {c}; roundtrip(m);
        }
    // all N/A patterns over all type tuples
    for (int nc = 1; nc <= 3; ++nc) {
        int nt = 1; for (int i = 0; i < nc; ++i) nt *= 5;
        for (int t = 0; t < nt; ++t) for (int rows = 0; rows <= pick(2, 3); ++rows) for (int mask = 0; mask < (1 << (nc * rows)); ++mask)
            if (begin("na-patterns")) {
                MFrame m; m.rows = rows; int v = t;
                for (int c = 0; c < nc; ++c, v /= 5) {
                    MCol col; col.type = (NXDataColumnType)(v % 5); col.label = fmt("c%d", c); col.cells.resize(rows);
                    for (int r = 0; r < rows; ++r) if (!(mask >> (c * rows + r) & 1)) {
                        MCell &x = col.cells[r]; x.na = false; x.i = r - 1; x.d = r + 0.25; x.b = r & 1; x.s = r == 1 ? "" : fmt("v%d", r);
                    }
                    m.cols.push_back(col);
                }
                roundtrip(m);
            }
    }
    // sizes around powers of two
    static const int SZ[] = {100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 33001, 66003};
    for (int n : SZ) for (int kind = 0; kind < 5; ++kind) if (begin("large")) {
        MFrame m; static const char *K[] = {"rows", "columns", "characters", "quotes", "label characters"}; describe([&] { return fmt("%d %s", n, K[kind]); });
        int nc = kind == 1 ? n : 2, rows = kind == 0 ? n : 2; m.rows = rows;
        for (int c = 0; c < nc; ++c) { MCol col; col.type = (NXDataColumnType)(kind >= 2 ? (c ? NX_DCT_INT : NX_DCT_STRING) : kind == 0 ? (n + 2 * c) % 5 : c % 5); col.label = kind == 4 && !c ? std::string(n - 1, 'l') + "," : fmt("c%d", c); col.cells.resize(rows);
            for (int r = 0; r < rows; ++r) { MCell &x = col.cells[r]; x.na = c > 0 && (r + c) % 9 == 4; x.i = r - 3 * c; x.d = r / 8.0 + 0.125 + c; x.b = (r ^ c) & 1; x.s = kind == 2 ? std::string(n - r, 'q') : kind == 3 ? std::string(n - r, '"') : fmt("%c%d", 'a' + c % 26, r % 11); }
            m.cols.push_back(col); }
        roundtrip(m);
    }
    // a quote, separator or line end at every place of a field
    for (int len = 1; len <= pick(70, 300); ++len) for (int at = 0; at < len; ++at) for (char ch : {'"', ',', '\n'}) if (begin("places")) {
        MFrame m; m.rows = 1; MCol c; c.type = NX_DCT_STRING; c.label = std::string(len, 'l'); c.label[at] = ch; c.cells = {S(std::string(len, 'x'))}; c.cells[0].s[at] = ch; m.cols = {c, c}; roundtrip(m);
    }
    // larger frames
    for (int nc = 1; nc <= pick(14, 40); ++nc) for (int rows = 0; rows <= pick(60, 200); rows += 1 + rows / 10)
        if (begin("shapes")) {
            MFrame m; m.rows = rows;
            for (int c = 0; c < nc; ++c) {
                MCol col; col.type = (NXDataColumnType)(c % 5); col.label = fmt("col \"%d\"", c); col.cells.resize(rows);
                for (int r = 0; r < rows; ++r) { MCell &x = col.cells[r]; x.na = nc > 1 && (r + c) % 7 == 3; x.i = r * c; x.d = r / 8.0 + 0.125 + c; x.b = (r ^ c) & 1; x.s = std::string(r % 40, 'a' + c % 26) + fmt("%d", r % 11); }
                m.cols.push_back(col);
            }
            roundtrip(m);
        }
}
void mc_run() { if (!strcmp(PROP, "P02")) p02(); else p03(); }
