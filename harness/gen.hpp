// Generation of models (entry lists) and their rendering as noisy text.
#pragma once
#include "h.hpp"
namespace h {

struct Ent { u64 x = 0, y = 0; std::string w; double wf = 0; i64 wi = 0; u64 wu = 0; };

// ---- weights: text and value ----
template<class W, bool fl = std::is_floating_point<W>::value, bool sg = std::is_signed<W>::value> struct WGen;
template<class W> struct WGen<W, true, true> {
    static void gen(Rng& r, Ent& e) {
        char b[64]; 
        switch (r.below(9)) {
            case 0: snprintf(b, sizeof b, "%d", (int)r.range(0, 1000)); break;
            case 1: snprintf(b, sizeof b, "-%d.%d", (int)r.range(0, 99), (int)r.range(0, 9999)); break;
            case 2: snprintf(b, sizeof b, "%d.%03d", (int)r.range(0, 99999), (int)r.range(0, 999)); break;
            case 3: snprintf(b, sizeof b, "%d.%de%d", (int)r.range(1, 9), (int)r.range(0, 99999), (int)r.range(0, 12)); break;
            case 4: snprintf(b, sizeof b, "%d.%dE-%02d", (int)r.range(1, 9), (int)r.range(0, 99999), (int)r.range(0, 12)); break;
            case 5: snprintf(b, sizeof b, "+%d.5", (int)r.range(0, 9)); break;
            case 6: snprintf(b, sizeof b, ".%04d", (int)r.range(0, 9999)); break;
            case 7: snprintf(b, sizeof b, "-%de+%02d", (int)r.range(1, 99), (int)r.range(0, 9)); break;
            default: snprintf(b, sizeof b, "%.*g", sizeof(W) == 4 ? 7 : 16, (r.unit() - 0.5) * 1000.0); break;
        }
        e.w = b; e.wf = strtod(b, 0);
    }
    static bool eq(const Ent& e, W v) {
        double t = sizeof(W) == 4 ? 4e-6 : 2e-14;
        return std::fabs((double)v - e.wf) <= t * std::fabs(e.wf);
    }
};
template<class W> struct WGen<W, false, true> {
    static void gen(Rng& r, Ent& e) {
        i64 lo = std::numeric_limits<W>::min(), hi = std::numeric_limits<W>::max(); i64 v;
        switch (r.below(12)) {
            case 0: v = hi - (i64)r.below(3); break;
            case 1: v = lo + (i64)r.below(3); break;
            case 2: case 3: case 4: v = (i64)r.below(100); break;
            case 5: case 6: case 7: v = -(i64)r.below(100); break;
            default: v = (i64)(W)r.next(); break;
        }
        e.wi = v; e.w = std::to_string(v); if (v >= 0 && r.chance(1, 10)) e.w = "+" + e.w;
    }
    static bool eq(const Ent& e, W v) { return (i64)v == e.wi; }
};
template<class W> struct WGen<W, false, false> {
    static void gen(Rng& r, Ent& e) {
        u64 hi = std::numeric_limits<W>::max(); u64 v;
        switch (r.below(8)) { case 0: v = hi - r.below(3); break; case 1: case 2: case 3: v = r.below(100) & hi; break; default: v = (u64)(W)r.next(); }
        e.wu = v; e.w = std::to_string(v);
    }
    static bool eq(const Ent& e, W v) { return (u64)v == e.wu; }
};
template<class W> std::string wstr(W v) { char b[64]; if (std::is_floating_point<W>::value) snprintf(b, sizeof b, "%.17g", (double)v); else if (std::is_signed<W>::value) snprintf(b, sizeof b, "%lld", (long long)v); else snprintf(b, sizeof b, "%llu", (unsigned long long)v); return b; }

// ---- entries ----
// max label so that label+1 is representable
template<class L> u64 max_label() { return (u64)std::numeric_limits<L>::max() - 1; }

inline size_t pick_count(Rng& r, size_t cap) {
    size_t n; if (st().group == "large" && cap > 6000 && r.chance(3, 4)) return (size_t)r.range(std::min<u64>(6000, cap), std::min<u64>(cap, 1u << 20));
    unsigned q = (unsigned)r.below(20);
    if (q < 2) n = r.below(3); else if (q < 9) n = r.range(1, 12); else if (q < 15) n = r.range(5, 80); else if (q < 19) n = r.range(50, 600); else n = r.range(600, 6000);
    return n > cap ? cap : n;
}
// Label distributions; `maxl` bounds labels (inclusive).
struct LabelGen {
    u64 lim; int kind;
    LabelGen(Rng& r, u64 maxl, bool huge_ok) {
        kind = (int)r.below(6);
        switch (r.below(huge_ok ? 7 : 5)) {
            case 0: lim = 3; break; case 1: lim = 9; break; case 2: lim = 40; break; case 3: lim = 300; break; case 4: lim = 3000; break;
            case 5: lim = 3000000; break; default: lim = maxl; }
        if (lim > maxl) lim = maxl;
    }
    u64 operator()(Rng& r) {
        switch (kind) {
            case 0: case 1: return r.below(lim) + (r.chance(1, 8) ? 1 : 0);
            case 2: return (u64)(lim * (r.unit() * r.unit() * r.unit()));      // skewed to small
            case 3: return lim - r.below(std::min<u64>(lim, 4) + 1);               // near the top
            case 4: { u64 p = 1; for (unsigned k = (unsigned)r.below(20); k && p < lim / 10; --k) p *= 10; u64 v = p + r.below(3) - 1; return std::min(v, lim); } // digit boundaries
            default: return r.below(lim + 1 ? lim + 1 : lim);
        }
    }
};
template<class W> std::vector<Ent> gen_ents(Rng& r, size_t n, u64 maxx, u64 maxy, bool huge_ok, bool weighted) {
    std::vector<Ent> v(n); LabelGen gx(r, maxx, huge_ok), gy(r, maxy, huge_ok);
    unsigned selfp = r.chance(1, 3) ? 3 : 12;
    bool same = r.chance(1, 2);
    for (auto& e : v) {
        e.x = gx(r); e.y = same ? std::min(gx(r), maxy) : gy(r); if (r.below(selfp) == 0) e.y = std::min(e.x, maxy);
        if (weighted) WGen<W>::gen(r, e);
    }
    // a few hot labels at the end, the start or the middle of the range
    if (n > 1 && r.chance(1, 4)) { u64 mx = 0; for (auto& e : v) mx = std::max(mx, e.x); unsigned w = (unsigned)r.below(4), k = (unsigned)r.pick({1, 3, 10}); u64 b = w < 2 ? mx - std::min<u64>(mx, k - 1) : w == 2 ? 0 : mx / 2; for (auto& e : v) if (r.chance(1, 3)) { e.x = std::min(b + r.below(k), mx); if (r.chance(1, 2)) { auto& o = v[r.below(n)]; if (o.x >= b && o.x < b + k) e.y = o.y; } } }
    // pairs that agree in their low or high bits
    if (r.chance(1, 4)) { unsigned k = (unsigned)r.pick({7, 8, 15, 16, 31, 32, 32, 33, 48, 53, (int)r.below(64)}); for (auto& e : v) if (r.chance(1, 3)) { u64 y = r.chance(1, 2) ? e.x ^ (1ull << k) : e.x + (r.range(1, 3) << k); if (y <= maxy) e.y = y; else if (e.y + (1ull << k) <= maxx && e.y + (1ull << k) > e.y) e.x = e.y + (1ull << k); } }
    if (n > 1 && r.chance(1, 4)) for (size_t k = 0; k < n / 3; ++k) { size_t a = r.below(n), b = r.below(n); v[a].x = v[b].x; v[a].y = v[b].y; }
    if (n > 1 && r.chance(1, 6)) std::sort(v.begin(), v.end(), [](const Ent& a, const Ent& b) { return a.x != b.x ? a.x < b.x : a.y < b.y; });
    return v;
}

// ---- rendering ----
inline std::string comment_text(Rng& r) {
    static const char* t[] = {"", " a comment", " 1 2", " 12 34 0.5", "% # 7", " x1y2", "#", "%%", " 3", "\t9 9", " 1 2 # 3 4", "0", " -5 e+3 .", "1", " no digits at all in this rather long comment line that spans a good number of bytes"};
    std::string s = t[r.below(sizeof t / sizeof *t)]; if (r.chance(1, 12)) s += std::string(r.range(1, r.chance(1, 400) ? 150000 : 300), r.chance(1, 2) ? '7' : 'c'); return s;
}
inline std::string sep(Rng& r, bool fancy) {
    if (!fancy) return " ";
    switch (r.below(6)) { case 0: return "\t"; case 1: return "  "; case 2: return " \t "; case 3: return std::string(r.range(1, r.chance(1, 3000) ? 9000 : 9), ' '); default: return " "; }
}
struct Noise {
    bool fancy, crlf, trailing, blanks, comments, lead, tailnl; unsigned rate;
    Noise(Rng& r) {
        bool clean = r.chance(1, 5);
        fancy = !clean && r.chance(1, 2); crlf = !clean && r.chance(1, 4); trailing = !clean && r.chance(1, 3); blanks = !clean && r.chance(1, 3);
        comments = !clean && r.chance(1, 2); lead = !clean && r.chance(1, 3); tailnl = !r.chance(1, 3); rate = (unsigned)r.pick({2, 3, 6, 15});
    }
    std::string eol() const { return crlf ? "\r\n" : "\n"; }
    void filler(Rng& r, std::string& o) const {   // whole lines without entries
        while ((blanks || comments) && r.below(rate) == 0) {
            if (blanks && (!comments || r.chance(1, 2))) { if (fancy && r.chance(1, 3)) o += sep(r, true); o += eol(); }
            else { if (lead && r.chance(1, 3)) o += sep(r, true); o += r.chance(1, 2) ? "#" : "%"; o += comment_text(r); o += eol(); }
        }
    }
};
inline std::string num(Rng& r, u64 v, bool fancy) { std::string s; if (fancy && r.chance(1, 25)) s += std::string(r.chance(1, 8) ? r.range(4, 40) : r.range(1, 3), '0'); return s + std::to_string(v); }    // leading zeros
// Appends text so that the total size is a multiple of the page size, without
// adding entries: a comment line before the last line is not possible any more,
// so the padding goes to the front as one comment line.
inline void page_align_front(std::string& s, size_t keep_prefix = 0) {
    size_t pg = 4096, need = (pg - s.size() % pg) % pg; if (need == 0) return; if (need < 2) need += pg;
    s.insert(keep_prefix, "#" + std::string(need - 2, '1') + "\n");
}
// Edge list body. `weighted` prints the weight column; otherwise optional unused columns.
template<class W> std::string render_el(Rng& r, const std::vector<Ent>& v, bool weighted, bool extra_cols, const Noise& nz) {
    std::string o; nz.filler(r, o);
    for (size_t i = 0; i < v.size(); ++i) {
        if (nz.lead && r.chance(1, 4)) o += sep(r, true);
        o += num(r, v[i].x, nz.fancy); o += sep(r, nz.fancy); o += num(r, v[i].y, nz.fancy);
        if (weighted) { o += sep(r, nz.fancy); o += v[i].w; }
        if (extra_cols && r.chance(2, 3)) { o += sep(r, nz.fancy); static const char* x[] = {"7", "0.5 8", "-3", "abc", "1e5 x", "11 12 13", "2.5"}; o += x[r.below(7)]; }
        if (nz.trailing && r.chance(1, 3)) { if (!r.chance(1, 8)) o += sep(r, nz.fancy); o += r.chance(1, 2) ? "#" : "%"; o += comment_text(r); }
        else if (nz.fancy && r.chance(1, 5)) o += sep(r, true);
        bool last = i + 1 == v.size();
        if (!last || nz.tailnl) o += nz.eol();
        if (!last || nz.tailnl) nz.filler(r, o);
    }
    if (nz.tailnl && nz.comments && r.chance(1, 5)) { o += "# end"; if (r.chance(1, 2)) o += " 5 6"; }   // unterminated last comment
    return o;
}
} // namespace h
