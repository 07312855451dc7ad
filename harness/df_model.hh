// Reference model of a data frame, and comparison with the library's.
#pragma once
#include "mc.hh"
extern "C" {
#include "virg/nexus/nx_data_frame.h"
#include "virg/nexus/nx_csv_lexer.h"
#include "virg/nexus/nx_csv_parser.h"
#include "virg/nexus/nx_alloc.h"
}
#include <cmath>
#include <climits>
#include <cerrno>
struct MCell { bool na = true; std::string s; int i = 0; double d = 0; bool b = false; };
struct MCol { NXDataColumnType type; std::string label; std::vector<MCell> cells; std::vector<std::string> levels; };
struct MFrame { std::vector<MCol> cols; int rows = 0; };

inline bool same_double(double a, double b) {
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    return a == b && std::signbit(a) == std::signbit(b);
}
// returns "" if equal
inline std::string diff_frame(const MFrame &m, const NXDataFrame *df, bool levels = true) {
    using mc::fmt;
    if (!df) return "no data frame";
    mc::step();
    if (nx_data_frame_n_columns(df) != (int)m.cols.size())
        return fmt("columns: got %d, expected %d", nx_data_frame_n_columns(df), (int)m.cols.size());
    if (nx_data_frame_n_rows(df) != m.rows) return fmt("rows: got %d, expected %d", nx_data_frame_n_rows(df), m.rows);
    for (int c = 0; c < (int)m.cols.size(); ++c) {
        const NXDataColumn *dc = nx_data_frame_column(df, c);
        const MCol &mcol = m.cols[c];
        if (nx_data_column_type(dc) != mcol.type)
            return fmt("column %d type: got %d, expected %d", c, nx_data_column_type(dc), mcol.type);
        if (mcol.label != nx_data_column_label(dc))
            return fmt("column %d label: got '%s', expected '%s'", c, mc::esc(nx_data_column_label(dc)).c_str(), mc::esc(mcol.label).c_str());
        if (levels) {
            int nl = nx_data_column_n_factor_levels(dc);
            int ml = mcol.type == NX_DCT_FACTOR ? (int)mcol.levels.size() : 0;
            if (nl != ml) return fmt("column %d levels: got %d, expected %d", c, nl, ml);
            for (int l = 0; l < ml; ++l)
                if (mcol.levels[l] != nx_data_column_factor_level(dc, l))
                    return fmt("column %d level %d: got '%s', expected '%s'", c, l, nx_data_column_factor_level(dc, l), mcol.levels[l].c_str());
        }
        for (int r = 0; r < m.rows; ++r) {
            const MCell &x = mcol.cells[r];
            bool na = nx_data_frame_is_na(df, r, c);
            if (na != x.na) return fmt("cell %d,%d: got %s, expected %s", r, c, na ? "N/A" : "a value", x.na ? "N/A" : "a value");
            if (na) continue;
            std::string e;
            if (!mc::guarded([&] {
                    switch (mcol.type) {
                    case NX_DCT_STRING: if (x.s != nx_data_frame_get_string(df, r, c)) e = fmt("cell %d,%d: got '%s', expected '%s'", r, c, mc::esc(nx_data_frame_get_string(df, r, c)).c_str(), mc::esc(x.s).c_str()); break;
                    case NX_DCT_FACTOR: if (x.s != nx_data_frame_get_factor(df, r, c)) e = fmt("cell %d,%d: got factor '%s', expected '%s'", r, c, mc::esc(nx_data_frame_get_factor(df, r, c)).c_str(), mc::esc(x.s).c_str()); break;
                    case NX_DCT_INT: if (x.i != nx_data_frame_get_int(df, r, c)) e = fmt("cell %d,%d: got %d, expected %d", r, c, nx_data_frame_get_int(df, r, c), x.i); break;
                    case NX_DCT_DOUBLE: if (!same_double(x.d, nx_data_frame_get_double(df, r, c))) e = fmt("cell %d,%d: got %.17g, expected %.17g", r, c, nx_data_frame_get_double(df, r, c), x.d); break;
                    case NX_DCT_BOOL: if (x.b != (bool)nx_data_frame_get_bool(df, r, c)) e = fmt("cell %d,%d: got bool %d, expected %d", r, c, (int)nx_data_frame_get_bool(df, r, c), (int)x.b); break;
                    }
                })) return fmt("reading cell %d,%d aborts", r, c);
            if (!e.empty()) return e;
        }
    }
    return "";
}
inline uint64_t hash_frame(const MFrame &m) {
    uint64_t h = m.rows;
    for (auto &c : m.cols) {
        h = mc::mix(h, c.type); h = mc::mix(h, mc::hash(c.label));
        for (auto &x : c.cells) h = mc::mix(h, x.na ? 7 : mc::hash(x.s) ^ x.i ^ (x.b << 20) ^ mc::hash_bytes(&x.d, 8));
        for (auto &l : c.levels) h = mc::mix(h, mc::hash(l));
    }
    return h;
}
inline std::string show_frame(const MFrame &m) {
    std::string o;
    for (auto &c : m.cols) {
        o += mc::fmt("[%d '%s':", c.type, mc::esc(c.label).c_str());
        for (auto &x : c.cells)
            o += x.na ? " NA" : c.type == NX_DCT_INT ? mc::fmt(" %d", x.i) : c.type == NX_DCT_DOUBLE ? mc::fmt(" %.17g", x.d)
               : c.type == NX_DCT_BOOL ? (x.b ? " true" : " false") : " '" + mc::esc(x.s) + "'";
        o += "] ";
    }
    return mc::fmt("rows=%d ", m.rows) + o;
}
// ------------------------------------------------------------- reference CSV reader
struct RField { bool na; bool quoted; std::string text; };
// false: the text is not a CSV table
inline bool ref_csv(const std::string &t, std::vector<std::vector<RField>> &recs) {
    size_t p = 0, n = t.size();
    if (n == 0) return false;
    while (p < n) {
        if (t[p] == '\n') return false; // empty record
        std::vector<RField> rec;
        for (;;) {
            if (p == n || t[p] == ',' || t[p] == '\n') rec.push_back({true, false, ""});
            else if (t[p] == '"') {
                std::string s; bool closed = false; ++p;
                while (p < n) {
                    if (t[p] == '"') {
                        if (p + 1 < n && t[p + 1] == '"') { s += '"'; p += 2; continue; }
                        ++p; closed = true; break;
                    }
                    s += t[p++];
                }
                if (!closed) return false;
                rec.push_back({false, true, s});
            } else {
                std::string s;
                while (p < n && t[p] != ',' && t[p] != '\n') { if (t[p] == '"') return false; s += t[p++]; }
                rec.push_back({false, false, s});
            }
            if (p < n && t[p] == ',') { ++p; continue; }
            if (p == n) break;
            if (t[p] == '\n') { ++p; break; }
            return false; // text after a quoted field
        }
        if (!recs.empty() && rec.size() != recs[0].size()) return false;
        recs.push_back(rec);
    }
    return true;
}
inline NXDataColumnType ref_type(const RField &f) {
    if (f.quoted) return NX_DCT_STRING;
    if (f.text == "true" || f.text == "false") return NX_DCT_BOOL;
    char *e; errno = 0; long v = strtol(f.text.c_str(), &e, 10);
    if (!*e && errno == 0 && v >= INT_MIN && v <= INT_MAX) return NX_DCT_INT;
    double d = strtod(f.text.c_str(), &e);
    bool textual_inf = f.text.find_first_of("iI") != std::string::npos;
    if (!*e && (textual_inf || !std::isinf(d))) return NX_DCT_DOUBLE;
    return NX_DCT_STRING;
}
inline MFrame ref_frame(const std::vector<std::vector<RField>> &recs, bool factors = false) {
    MFrame m;
    m.rows = (int)recs.size() - 1;
    for (size_t c = 0; c < recs[0].size(); ++c) {
        MCol col; col.label = recs[0][c].text;
        bool any = false, str = false, boo = false, num = false, dbl = false;
        for (int r = 1; r <= m.rows; ++r) {
            if (recs[r][c].na) continue;
            any = true;
            switch (ref_type(recs[r][c])) {
            case NX_DCT_STRING: str = true; break;
            case NX_DCT_BOOL: boo = true; break;
            case NX_DCT_DOUBLE: dbl = num = true; break;
            default: num = true;
            }
        }
        col.type = (!any || str || (boo && num)) ? NX_DCT_STRING : boo ? NX_DCT_BOOL : dbl ? NX_DCT_DOUBLE : NX_DCT_INT;
        if (factors && col.type == NX_DCT_STRING) col.type = NX_DCT_FACTOR;
        for (int r = 1; r <= m.rows; ++r) {
            const RField &f = recs[r][c];
            MCell x; x.na = f.na;
            if (!f.na) switch (col.type) {
                case NX_DCT_STRING: x.s = f.text; break;
                case NX_DCT_FACTOR: {
                    x.s = f.text; bool seen = false;
                    for (auto &l : col.levels) seen |= l == f.text;
                    if (!seen) col.levels.push_back(f.text);
                    break; }
                case NX_DCT_BOOL: x.b = f.text == "true"; break;
                case NX_DCT_DOUBLE: x.d = strtod(f.text.c_str(), nullptr); break;
                default: x.i = (int)strtol(f.text.c_str(), nullptr, 10);
                }
            col.cells.push_back(x);
        }
        m.cols.push_back(col);
    }
    return m;
}
