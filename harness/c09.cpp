// C09: sorting and duplicate removal are exact.
#include "obj.hpp"
#include "guard.hpp"
#include "wide.hpp"
using namespace h;

static Csr gen(Rng& r, size_t cap, u64 dimcap, u64 rowcap, int kind, u64 (*w)(Rng&), bool wg) {
    Csr m; u64 rows = 0;
    switch (r.below(6)) { case 0: rows = r.range(1, 4); break; case 1: case 2: rows = r.range(2, 40); break; case 3: rows = r.range(30, 600); break; case 4: rows = r.range(500, 4000); break; default: rows = r.range(10000, 45000); }
    if (rowcap > 45000 && r.chance(1, 2)) rows = r.chance(1, 2) ? r.range(60000, 140000) : r.range(1u << 16, (1u << 16) + 40) * r.range(1, 3) + r.below(40);
    rows = std::min(rows, rowcap); m.nc = std::min<u64>(dimcap, r.pick<u64>({1, 2, 5, 30, 1000, 100000})); m.nr = rows;
    if (r.chance(1, 3)) { m.nc = std::min(m.nc, rows); }
    m.n = r.chance(1, 6) && m.nc <= m.nr ? m.nr - (m.nr > 1) : std::max(m.nr, m.nc); m.rows.resize(std::max(m.n, m.nr)); size_t left = cap;
    int hot = (int)r.below(5);
    u64 few = r.chance(1, 2) ? std::min<u64>(m.nc, 4) : m.nc;
    for (u64 v = 0; v < rows && left; ++v) {
        size_t d = 0; switch (kind) { case 0: d = r.below(4); break; case 1: d = r.chance(1, 3) ? r.below(20) : 0; break; case 2: d = v == rows / 2 ? left : 0; break; default: d = r.below(2 + cap / (rows + 1)); }
        if (hot && (hot == 1 ? v + 12 >= rows : hot == 2 ? v < 12 : v % 1000 == 999)) d = r.below(9);
        d = std::min(d, left); left -= d; unsigned k = (unsigned)r.below(4); u64 c = r.below(m.nc);
        for (size_t i = 0; i < d; ++i) m.rows[v].push_back({k == 0 ? c : k == 1 ? m.nc - 1 - (i % m.nc) : r.below(few), wg ? w(r) : 0});
        m.m += d;
    }
    return m;
}
template<class W> u64 anyw(Rng& r) { return r.chance(1, 2) ? wbits<W>((W)(r.below(5))) : wbits<W>(AnyW<W>::gen(r)); }
static u64 hcsr(const Csr& m) { u64 x = m.nr; for (auto& r : m.rows) { x = mix(x + 1); for (auto& e : r) x = mix(x ^ mix(e.first + 7) ^ e.second); } return x; }

template<class C> void check_sorted(C& c, const Csr& m, bool wg, const char* what) {
    Csr got = read_csr(c, wg, what); cmp_dims(got.n, got.nr, got.nc, m.n, m.nr, m.nc, what);
    for (size_t v = 0; v < got.rows.size(); ++v) for (size_t k = 1; k < got.rows[v].size(); ++k) H_CHECK(got.rows[v][k - 1].first <= got.rows[v][k].first, "order", "%s: row %zu is not ascending at %zu", what, v, k);
    Csr a = got, b = m; sort_rows(a); sort_rows(b); cmp_rows(a, b, what);
}
template<class L, class O, int K, bool WG, class W, class nL, class nO, int nK, bool nWG, class nW> void one(Rng& r, size_t cap = 20000, u64 rowcap = 45000, int kind = -1) {
    typedef pigo::CSR<L, O, Store<L, K>, Store<O, K>, WG, W, Store<W, K>> C;
    u64 dim = std::min<u64>(std::min((u64)max_label<L>(), (u64)max_label<nL>()), 200000), mc = std::min<u64>(std::min((u64)std::numeric_limits<O>::max(), (u64)std::numeric_limits<nO>::max()), cap);
    Csr m = gen(r, r.chance(1, 20) ? 0 : mc, dim, std::min<u64>(rowcap, dim), kind >= 0 ? kind : (int)r.below(4), anyw<W>, WG);
    int t = pick_threads(r); set_threads(t); stat("evaluations"); seen("inputs", hcsr(m) ^ t); stat("rows_checked", m.rows.size()); stat("entries_checked", m.m); stat_max("rows", m.rows.size()); stat_max("threads", t);
    label(std::string(tname<L>()) + "," + tname<O>() + (WG ? std::string(",w:") + tname<W>() : "") + "->" + tname<nL>() + "," + tname<nO>() + " threads=" + std::to_string(t) + " rows=" + std::to_string(m.rows.size()) + " m=" + std::to_string(m.m) + " ncols=" + std::to_string(m.nc));
    C c((L)m.n, (O)m.m, (L)m.nr, (L)m.nc); fill_csr(c, m, WG);
    if (r.chance(1, 2)) { c.sort(); check_sorted(c, m, WG, "sorted"); }
    auto d = c.template new_csr_without_dups<nL, nO, Store<nL, nK>, Store<nO, nK>, nWG, nW, Store<nW, nK>>();
    check_sorted(c, m, WG, "source after de-duplication");
    Csr got = read_csr(d, nWG, "clean");
    u64 tot = 0, dups = 0;
    H_CHECK(got.rows.size() == m.rows.size(), "row-slots", "clean: %zu rows expected %zu", got.rows.size(), m.rows.size());
    for (size_t v = 0; v < m.rows.size(); ++v) {
        std::map<u64, std::set<u64>> want; for (auto& e : m.rows[v]) want[e.first].insert(nWG && WG ? wbits<nW>((nW)wfrom<W>(e.second)) : 0);
        dups += m.rows[v].size() - want.size(); tot += want.size();
        H_CHECK(got.rows[v].size() == want.size(), "row-size", "clean: row %zu has %zu entries expected %zu", v, got.rows[v].size(), want.size());
        size_t k = 0; for (auto& e : want) { H_CHECK(got.rows[v][k].first == e.first, "row-entry", "clean: row %zu entry %zu is %llu expected %llu", v, k, (unsigned long long)got.rows[v][k].first, (unsigned long long)e.first); if (nWG) H_CHECK(e.second.count(got.rows[v][k].second), "weight-value", "clean: row %zu entry %zu has a weight none of its duplicates had", v, k); ++k; }
    }
    H_CHECK(got.m == tot, "entry-count", "clean: m=%llu expected %llu", (unsigned long long)got.m, (unsigned long long)tot);
    cmp_dims(got.n, got.nr, got.nc, m.n, m.nr, m.nc, "clean"); stat("duplicates_removed", dups);
    d.free(); c.free();
}
// The result fits an ordinal type that the source does not fit.
template<class O, class nO, bool WG> static void narrow(Rng& r) {
    typedef pigo::CSR<u32, O, u32*, O*, WG, int, int*> C; Csr m; u64 rows = r.range(1, 60), room = std::min<u64>((u64)std::numeric_limits<nO>::max(), 40000), few = std::max<u64>(1, std::min<u64>(room / rows, r.range(1, 300))); m.n = m.nr = std::max<u64>(rows, few); m.nc = m.n; m.rows.resize(m.n); u64 want_m = room + r.range(1, room * 2), per = want_m / rows + 1; u64 max = (u64)std::numeric_limits<O>::max();
    for (u64 v = 0; v < rows && m.m < max; ++v) for (u64 i = 0; i < per && m.m < max; ++i, ++m.m) m.rows[v].push_back({r.below(few), WG ? wbits<int>((int)r.below(9)) : 0});
    int t = pick_threads(r); set_threads(t); stat("evaluations"); seen("inputs", hcsr(m) ^ t); stat("narrower_results"); label(std::string("narrow ") + tname<O>() + "->" + tname<nO>() + " threads=" + std::to_string(t) + " rows=" + std::to_string(rows) + " m=" + std::to_string(m.m));
    C c((u32)m.n, (O)m.m, (u32)m.nr, (u32)m.nc); fill_csr(c, m, WG); auto d = c.template new_csr_without_dups<u32, nO, u32*, nO*, WG, int, int*>(); Csr got = read_csr(d, WG, "clean"); u64 tot = 0;
    for (u64 v = 0; v < m.n; ++v) { std::map<u64, std::set<u64>> want; for (auto& e : m.rows[v]) want[e.first].insert(e.second); tot += want.size(); H_CHECK(got.rows[v].size() == want.size(), "row-size", "clean: row %llu has %zu entries expected %zu", (unsigned long long)v, got.rows[v].size(), want.size()); size_t k = 0; for (auto& e : want) { auto& g = got.rows[v][k++]; H_CHECK(g.first == e.first && (!WG || e.second.count(g.second)), "row-entry", "clean: row %llu entry %zu is %llu expected %llu", (unsigned long long)v, k - 1, (unsigned long long)g.first, (unsigned long long)e.first); } }
    H_CHECK(got.m == tot, "entry-count", "clean: m=%llu expected %llu", (unsigned long long)got.m, (unsigned long long)tot); check_sorted(c, m, WG, "source after de-duplication"); d.free(); c.free();
}
H_GROUP(narrow) { switch (rng.below(6)) { case 0: narrow<u32, u8, false>(rng); break; case 1: narrow<u32, u8, true>(rng); break; case 2: narrow<u64, u16, true>(rng); break; case 3: narrow<u32, u16, false>(rng); break; case 4: narrow<u16, u8, true>(rng); break; default: narrow<u32, int8_t, false>(rng); } }
H_GROUP(same) {
    switch (rng.below(7)) {
        case 5: one<u32, u8, 0, true, int, u32, u8, 0, true, int>(rng); break;
        case 0: one<u32, u32, 0, false, float, u32, u32, 0, false, float>(rng); break;
        case 1: one<u32, u32, 0, true, float, u32, u32, 0, true, float>(rng); break;
        case 2: one<u64, u64, 1, true, double, u64, u64, 1, true, double>(rng); break;
        case 3: one<u32, u32, 1, true, int, u32, u32, 1, true, int>(rng); break;
        case 4: one<u16, u32, 2, false, float, u16, u32, 2, false, float>(rng); break;
        default: one<int, int, 2, true, int64_t, int, int, 2, true, int64_t>(rng); break;
    }
}
H_GROUP(cross) {
    switch (rng.below(7)) {
        case 5: one<u32, u32, 0, true, int, u32, int8_t, 1, true, int>(rng); break;
        case 0: one<u32, u32, 0, false, float, u64, u64, 1, false, float>(rng); break;
        case 1: one<u64, u64, 1, true, int, u32, u32, 2, true, int64_t>(rng); break;
        case 2: one<u32, u64, 2, true, float, u32, u32, 0, false, float>(rng); break;
        case 3: one<u64, u32, 0, true, float, u32, u64, 0, true, double>(rng); break;
        case 4: one<u8, u32, 1, false, float, u16, u16, 0, false, float>(rng); break;
        default: one<u32, u32, 1, true, u8, u64, u32, 0, true, u32>(rng); break;
    }
}
// Small objects, for the deterministic scheduler; chunks beyond one dynamic chunk in `rows`.
H_GROUP(small) { one<u32, u32, 0, true, int, u32, u32, 0, true, int>(rng, 60, 30); }
H_GROUP(rows) { one<u32, u32, 0, true, int, u32, u32, 1, true, int>(rng, 400000, 200000, 0); }
// So many rows that their number times the number of threads does not fit the label type.
template<class L> static void wide(Rng& r) {
    if (!roomy(0, 2ull << 30)) return; Wide w(r); for (auto& x : w.e) if (r.chance(1, 2)) x = r.pick(w.e); label(w.what() + (std::is_signed<L>::value ? " signed" : "")); stat("evaluations"); seen("inputs", w.n * 64 + (u64)w.t); set_threads(w.t);
    pigo::CSR<L, u8, L*, u8*> s = wide_csr<L>(w);
    pigo::CSR<L, u8, L*, u8*> c = s.new_csr_without_dups(); w.check(s, false, false); w.check(c, true, false); s.free(); c.free();
}
H_GROUP(labels) { if (rng.chance(1, 2)) wide<u32>(rng); else wide<int>(rng); }
