// Models of library objects, construction of objects from models, extraction.
#pragma once
#include "gen.hpp"
namespace h {

template<class W> u64 wbits(W w) { u64 b = 0; memcpy(&b, &w, sizeof w); return b; }
template<class W> W wfrom(u64 b) { W w; memcpy(&w, &b, sizeof w); return w; }

struct E3 { u64 x, y, w; bool operator==(const E3& o) const { return x == o.x && y == o.y && w == o.w; } bool operator<(const E3& o) const { return x != o.x ? x < o.x : y != o.y ? y < o.y : w < o.w; } };
struct Mat { u64 n = 0, nr = 0, nc = 0; std::vector<E3> e; };
typedef std::vector<std::pair<u64, u64>> Row;   // (endpoint, weight bits)
struct Csr { u64 n = 0, m = 0, nr = 0, nc = 0; std::vector<Row> rows; };

inline std::string e3s(const E3& e) { char b[96]; snprintf(b, sizeof b, "(%llu,%llu,w:%llx)", (unsigned long long)e.x, (unsigned long long)e.y, (unsigned long long)e.w); return b; }

// Any finite value of the weight type, -0.0 and denormals included.
template<class W, bool fl = std::is_floating_point<W>::value> struct AnyW { static W gen(Rng& r) { return r.chance(1, 2) ? (W)(r.below(9)) : (W)r.next(); } };
template<class W> struct AnyW<W, true> { static W gen(Rng& r) {
    switch (r.below(5)) { case 0: return (W)(int)r.below(7); case 1: return (W)((r.unit() - 0.5) * 1e3); case 2: return r.chance(1, 2) ? (W)-0.0 : (W)0.0;
        default: { u64 b = r.next(); W w = wfrom<W>(sizeof(W) == 8 ? b : (b & 0xffffffffu)); return std::isfinite(w) ? w : (W)1.5; } } } };
// Values whose comparison is total and unambiguous (no -0.0): used where order matters.
template<class W> W norm0(W w) { return w == (W)0 ? (W)0 : w; }

// A coordinate model. Labels are small enough for compressed conversion (n bounded by maxdim).
template<class W> Mat gen_mat(Rng& r, size_t n, u64 maxdim, bool weighted) {
    Mat m; u64 d1, d2;
    auto dim = [&]() -> u64 { u64 d; switch (r.below(8)) { case 0: d = 1; break; case 1: d = r.range(1, 4); break; case 2: case 3: d = r.range(2, 30); break; case 4: case 5: d = r.range(20, 400); break; case 6: d = r.range(300, 3000); break; default: d = r.range(1000, st().group == "large" ? std::max<u64>(30000, std::min<u64>(maxdim, 400000)) : 30000); } return std::max<u64>(1, std::min(d, maxdim)); };
    d1 = dim(); d2 = r.chance(1, 2) ? d1 : dim(); m.nr = d1; m.nc = d2; m.n = std::max(d1, d2);
    unsigned kind = (unsigned)r.below(6); u64 hot = r.below(d1);
    bool dups = r.chance(1, 3);
    for (size_t i = 0; i < n; ++i) {
        E3 e; e.w = 0;
        e.x = kind == 0 ? hot : kind == 1 ? (u64)(d1 * r.unit() * r.unit()) : kind == 2 ? (r.chance(1, 3) ? hot : r.below(d1)) : kind == 3 ? std::min<u64>(d1 - 1, i * d1 / (n ? n : 1)) : r.below(d1);
        e.y = r.chance(1, 8) ? std::min(e.x, d2 - 1) : kind == 4 ? r.below(std::min<u64>(d2, 5)) : r.below(d2);
        if (dups && i && r.chance(1, 2)) { const E3& o = m.e[r.below(i)]; e.x = o.x; e.y = o.y; }
        if (weighted) e.w = (dups && i && r.chance(1, 3)) ? m.e[r.below(i)].w : wbits<W>(AnyW<W>::gen(r));
        m.e.push_back(e);
    }
    if (r.chance(1, 5)) std::sort(m.e.begin(), m.e.end());
    return m;
}
// Loosens the declared dimensions beyond the labels used, sometimes makes it empty.
template<class C> void fill_coo(C& c, const Mat& m, bool weighted) {
    typedef typename std::remove_reference<decltype(raw(c.x())[0])>::type L; typedef typename std::remove_reference<decltype(raw(c.w())[0])>::type W;
    for (size_t i = 0; i < m.e.size(); ++i) { raw(c.x())[i] = (L)m.e[i].x; raw(c.y())[i] = (L)m.e[i].y; if (weighted) raw(c.w())[i] = wfrom<W>(m.e[i].w); }
}
template<class C> Mat read_coo(C& c, bool weighted) {
    typedef typename std::remove_reference<decltype(raw(c.w())[0])>::type W; (void)sizeof(W);
    Mat m; m.n = (u64)c.n(); m.nr = (u64)c.nrows(); m.nc = (u64)c.ncols(); size_t k = (size_t)c.m(); m.e.resize(k);
    for (size_t i = 0; i < k; ++i) { m.e[i].x = (u64)raw(c.x())[i]; m.e[i].y = (u64)raw(c.y())[i]; m.e[i].w = weighted ? wbits(raw(c.w())[i]) : 0; }
    return m;
}
// Reads a compressed object after checking that its offsets are well formed.
template<class C> Csr read_csr(C& c, bool weighted, const char* what = "csr") {
    Csr m; m.n = (u64)c.n(); m.m = (u64)c.m(); m.nr = (u64)c.nrows(); m.nc = (u64)c.ncols();
    u64 slots = std::max(m.n, m.nr);
    auto* off = raw(c.offsets()); auto* ep = raw(c.endpoints());
    H_CHECK((u64)off[0] == 0, "offsets", "%s: first offset is %llu", what, (unsigned long long)off[0]);
    for (u64 v = 0; v < slots; ++v) { H_CHECK(off[v] <= off[v + 1] && (u64)off[v + 1] <= m.m, "offsets", "%s: offsets %llu..%llu of row %llu (m=%llu)", what, (unsigned long long)off[v], (unsigned long long)off[v + 1], (unsigned long long)v, (unsigned long long)m.m); }
    H_CHECK((u64)off[slots] == m.m, "offsets", "%s: last offset is %llu, m=%llu", what, (unsigned long long)off[slots], (unsigned long long)m.m);
    m.rows.resize(slots);
    for (u64 v = 0; v < slots; ++v) for (u64 k = (u64)off[v]; k < (u64)off[v + 1]; ++k) m.rows[v].push_back({(u64)ep[k], weighted ? wbits(raw(c.weights())[k]) : 0});
    return m;
}
inline Csr to_rows(const Mat& m) { Csr c; c.n = std::max(m.n, std::max(m.nr, m.nc)); c.m = m.e.size(); c.nr = m.nr; c.nc = m.nc; c.rows.resize(std::max(c.n, c.nr)); for (auto& e : m.e) c.rows[e.x].push_back({e.y, e.w}); return c; }
inline void sort_rows(Csr& c) { for (auto& r : c.rows) std::sort(r.begin(), r.end()); }
inline void cmp_rows(const Csr& got, const Csr& want, const char* what) {
    H_CHECK(got.m == want.m, "entry-count", "%s: m=%llu expected %llu", what, (unsigned long long)got.m, (unsigned long long)want.m);
    H_CHECK(got.rows.size() == want.rows.size(), "row-slots", "%s: %zu rows expected %zu", what, got.rows.size(), want.rows.size());
    for (size_t v = 0; v < want.rows.size(); ++v) {
        H_CHECK(got.rows[v].size() == want.rows[v].size(), "row-size", "%s: row %zu has %zu entries expected %zu", what, v, got.rows[v].size(), want.rows[v].size());
        for (size_t k = 0; k < want.rows[v].size(); ++k) H_CHECK(got.rows[v][k] == want.rows[v][k], "row-entry", "%s: row %zu entry %zu is (%llu,w:%llx) expected (%llu,w:%llx)", what, v, k, (unsigned long long)got.rows[v][k].first, (unsigned long long)got.rows[v][k].second, (unsigned long long)want.rows[v][k].first, (unsigned long long)want.rows[v][k].second);
    }
}
inline void cmp_dims(u64 n, u64 nr, u64 nc, u64 en, u64 enr, u64 enc, const char* what) {
    H_CHECK(nr == enr && nc == enc, "dims", "%s: nrows=%llu ncols=%llu expected %llu %llu", what, (unsigned long long)nr, (unsigned long long)nc, (unsigned long long)enr, (unsigned long long)enc);
    H_CHECK(n == en, "labels", "%s: n=%llu expected %llu", what, (unsigned long long)n, (unsigned long long)en);
}
inline void cmp_mat(const Mat& got, const Mat& want, const char* what) {
    H_CHECK(got.e.size() == want.e.size(), "entry-count", "%s: m=%zu expected %zu", what, got.e.size(), want.e.size());
    for (size_t i = 0; i < want.e.size(); ++i) H_CHECK(got.e[i] == want.e[i], "entry-value", "%s: entry %zu is %s expected %s", what, i, e3s(got.e[i]).c_str(), e3s(want.e[i]).c_str());
    cmp_dims(got.n, got.nr, got.nc, want.n, want.nr, want.nc, what);
}
// Builds a compressed object with the model's rows in the given order.
template<class C> void fill_csr(C& c, const Csr& m, bool weighted) {
    typedef typename std::remove_reference<decltype(raw(c.endpoints())[0])>::type L; typedef typename std::remove_reference<decltype(raw(c.offsets())[0])>::type O; typedef typename std::remove_reference<decltype(raw(c.weights())[0])>::type W;
    u64 p = 0; for (size_t v = 0; v < m.rows.size(); ++v) { raw(c.offsets())[v] = (O)p; for (auto& e : m.rows[v]) { raw(c.endpoints())[p] = (L)e.first; if (weighted) raw(c.weights())[p] = wfrom<W>(e.second); ++p; } }
    raw(c.offsets())[m.rows.size()] = (O)p;
}
inline u64 hash_mat(const Mat& m) { u64 x = mix(m.nr * 31 + m.nc); for (auto& e : m.e) x = mix(x ^ mix(e.x * 3 + mix(e.y) * 5 + e.w)); return x; }
inline std::string desc(const Mat& m) { std::string s = "n=" + std::to_string(m.n) + " nrows=" + std::to_string(m.nr) + " ncols=" + std::to_string(m.nc) + " m=" + std::to_string(m.e.size()) + ":"; for (size_t i = 0; i < m.e.size() && i < 10; ++i) s += e3s(m.e[i]); return s; }

// Filter and mirror of the load options.
template<class T> std::vector<T> apply_opts(const std::vector<T>& v, bool sym, bool ut, bool sl) {
    std::vector<T> o;
    for (auto e : v) {
        if (sl && e.x == e.y) continue;
        if (!sym && ut && e.x > e.y) continue;
        if (sym && ut && e.x > e.y) std::swap(e.x, e.y);
        o.push_back(e);
        if (sym && !ut && e.x != e.y) { std::swap(e.x, e.y); o.push_back(e); }
    }
    return o;
}
inline std::string optname(bool sym, bool ut, bool sl) { return std::string(sym ? "sym" : "") + (ut ? "+ut" : "") + (sl ? "+sl" : ""); }
// Compares a loaded coordinate object with model entries (text weights).
template<class W, class C> void cmp_loaded(C& c, const std::vector<Ent>& v, bool weighted, const char* what) {
    H_CHECK((u64)c.m() == v.size(), "entry-count", "%s: m=%llu expected %zu", what, (unsigned long long)c.m(), v.size());
    for (size_t i = 0; i < v.size(); ++i) {
        u64 x = (u64)raw(c.x())[i], y = (u64)raw(c.y())[i];
        H_CHECK(x == v[i].x && y == v[i].y, "entry-value", "%s: entry %zu of %zu is (%llu,%llu) expected (%llu,%llu)", what, i, v.size(), (unsigned long long)x, (unsigned long long)y, (unsigned long long)v[i].x, (unsigned long long)v[i].y);
        if (weighted) { W w = raw(c.w())[i]; H_CHECK(WGen<W>::eq(v[i], w), "weight-value", "%s: entry %zu weight %s expected %s", what, i, wstr(w).c_str(), v[i].w.c_str()); }
    }
}
// Calls f and requires that it throws a pigo::Error (or derived). Returns true for NotYetImplemented.
template<class F> void must_throw(F f, bool nyi, const char* key, const char* what) {
    try { f(); }
    catch (pigo::NotYetImplemented&) { return; }
    catch (pigo::Error&) { H_CHECK(!nyi, key, "%s: error instead of the not-implemented error", what); return; }
    catch (std::exception& e) { fail(key, "%s: foreign exception %s", what, e.what()); }
    catch (CaseFail&) { throw; }
    fail(key, "%s: accepted", what);
}
} // namespace h
