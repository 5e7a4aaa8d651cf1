// C06: coordinate to compressed conversion conserves every entry.
#include "obj.hpp"
#include "guard.hpp"
#include "wide.hpp"
using namespace h;

// CL..: source types, L..: target types, K1/K2 storage of source/target
template<class CL, class CO, int K1, class CW, class L, class O, int K2, class W, bool WG> void conv(Rng& r, size_t cap = 6000, u64 dimcap = 30000) {
    typedef pigo::COO<CL, CO, Store<CL, K1>, false, false, false, WG, CW, Store<CW, K1>> S; typedef pigo::CSR<L, O, Store<L, K2>, Store<O, K2>, WG, W, Store<W, K2>> T;
    u64 dim = std::min<u64>(std::min((u64)max_label<CL>(), (u64)max_label<L>()), dimcap);
    u64 mc = std::min<u64>(std::min((u64)std::numeric_limits<CO>::max(), (u64)std::numeric_limits<O>::max()) - 1, cap);
    Mat m = gen_mat<CW>(r, r.chance(1, 15) ? 0 : pick_count(r, mc), dim, WG);
    if (r.chance(1, 5)) { // the weights travel as integers that identify their entry
        if (WG && sizeof(CW) >= 4) for (size_t i = 0; i < m.e.size(); ++i) m.e[i].w = wbits<CW>((CW)i); }
    m.n = std::max(m.nr, m.nc); if (r.chance(1, 6)) m.n = std::min<u64>(m.n + r.below(4), dim);
    int t = pick_threads(r); set_threads(t); stat("evaluations"); stat("entries_checked", m.e.size()); stat_max("threads", t); seen("inputs", hash_mat(m) ^ t);
    label(std::string(tname<CL>()) + "," + tname<CO>() + "->" + tname<L>() + "," + tname<O>() + (WG ? std::string(" w:") + tname<CW>() + "->" + tname<W>() : "") + " threads=" + std::to_string(t) + " " + desc(m));
    S s((CL)m.n, (CL)m.nr, (CL)m.nc, (CO)m.e.size()); fill_coo(s, m, WG);
    Box<T> b(pick_pattern(r)); T& c = b.make(s);
    Mat after = read_coo(s, WG); cmp_mat(after, m, "source after conversion");
    Csr got = read_csr(c, WG), want = to_rows(m);
    want.n = std::max(want.n, m.n); want.rows.resize(std::max(want.n, want.nr));
    if (WG) for (auto& row : want.rows) for (auto& e : row) e.second = wbits<W>((W)wfrom<CW>(e.second));
    sort_rows(got); sort_rows(want); cmp_rows(got, want, "converted"); cmp_dims(got.n, got.nr, got.nc, want.n, m.nr, m.nc, "converted");
    c.free(); s.free();
}
H_GROUP(plain) {
    switch (rng.below(9)) {
        case 7: conv<u32, u8, 0, float, u16, int16_t, 0, float, false>(rng); break;
        case 0: conv<u32, u32, 0, float, u32, u32, 0, float, false>(rng); break;
        case 1: conv<u64, u64, 1, float, u32, u32, 0, float, false>(rng); break;
        case 2: conv<u32, u32, 2, float, u64, u64, 1, float, false>(rng); break;
        case 3: conv<u16, u32, 0, float, u32, u64, 2, float, false>(rng); break;
        case 4: conv<u8, u16, 1, float, u8, u16, 1, float, false>(rng); break;
        case 5: conv<int, int, 0, float, int, int64_t, 0, float, false>(rng); break;
        case 6: conv<u64, u32, 0, float, u16, u32, 1, float, false>(rng); break;
        default: conv<u32, u32, 1, float, u32, u32, 2, float, false>(rng); break;
    }
}
H_GROUP(weighted) {
    switch (rng.below(9)) {
        case 7: conv<u32, u64, 0, int, u16, u8, 1, int, true>(rng); break;
        case 0: conv<u32, u32, 0, float, u32, u32, 0, float, true>(rng); break;
        case 1: conv<u64, u64, 1, double, u32, u32, 0, double, true>(rng); break;
        case 2: conv<u32, u32, 2, int, u64, u64, 1, int64_t, true>(rng); break;
        case 3: conv<u16, u32, 0, u8, u32, u64, 2, u32, true>(rng); break;
        case 4: conv<u32, u32, 1, float, u32, u32, 1, double, true>(rng); break;
        case 5: conv<int, int, 0, int64_t, int, int, 0, int64_t, true>(rng); break;
        case 6: conv<u8, u8, 0, int8_t, u8, u8, 2, int8_t, true>(rng); break;
        default: conv<u32, u64, 0, u64, u32, u32, 0, u64, true>(rng); break;
    }
}
// Contention: large objects on few rows, all rows, long runs.
H_GROUP(large) { if (rng.chance(1, 2)) conv<u32, u32, 0, int, u32, u32, 0, int, true>(rng, 400000, rng.pick<u64>({1, 3, 100, 300000})); else conv<u32, u32, 0, float, u32, u32, 0, float, false>(rng, 400000, rng.pick<u64>({1, 2, 10, 1000, 300000})); }
H_GROUP(contend) {
    size_t n = rng.range(20000, 200000); Mat m; m.nr = rng.range(1, 6); m.nc = n; m.n = n; bool one = rng.chance(1, 2);
    for (size_t i = 0; i < n; ++i) m.e.push_back({one ? 0 : rng.below(m.nr), i, wbits<int>((int)i)});
    int t = (int)rng.range(2, 8); set_threads(t); stat("evaluations"); seen("inputs", hash_mat(m) ^ t); label("contend n=" + std::to_string(n) + " rows=" + std::to_string(m.nr) + " threads=" + std::to_string(t));
    typedef pigo::WCOOPtr<u32, u32, int> S; S s((u32)m.n, (u32)m.nr, (u32)m.nc, (u32)n); fill_coo(s, m, true);
    pigo::WCSRPtr<u32, u32, int> c(s); Csr got = read_csr(c, true), want = to_rows(m); sort_rows(got); sort_rows(want); cmp_rows(got, want, "contended"); c.free(); s.free();
}
// Small contended conversions for the deterministic scheduler.
H_GROUP(small) {
    Mat m; m.nr = rng.range(1, 5); m.nc = rng.range(1, 5); m.n = std::max(m.nr, m.nc); size_t n = rng.range(1, 14); for (size_t i = 0; i < n; ++i) m.e.push_back({rng.below(m.nr), rng.below(m.nc), wbits<int>((int)i)});
    int t = (int)rng.range(2, 6); set_threads(t); stat("evaluations"); seen("inputs", hash_mat(m) ^ t); label("small threads=" + std::to_string(t) + " " + desc(m));
    typedef pigo::WCOOPtr<u32, u32, int> S; S s((u32)m.n, (u32)m.nr, (u32)m.nc, (u32)n); fill_coo(s, m, true);
    for (int k = 0; k < 4; ++k) { pigo::WCSRPtr<u32, u32, int> c(s); Csr got = read_csr(c, true), want = to_rows(m); sort_rows(got); sort_rows(want); cmp_rows(got, want, "small"); cmp_dims(got.n, got.nr, got.nc, m.n, m.nr, m.nc, "small"); c.free(); }
    s.free();
}
// So many labels that their number times the number of threads does not fit the label type.
template<class L> static void wide(Rng& r) {
    if (!roomy(0, 1ull << 30)) return; Wide w(r); label(w.what() + (std::is_signed<L>::value ? " signed" : "")); stat("evaluations"); seen("inputs", w.n * 64 + (u64)w.t); set_threads(w.t);
    pigo::COO<L, u8, L*> s((L)w.n, (L)w.n, (L)w.n, (u8)w.e.size()); fill_wide(s, w); pigo::CSR<L, u8, L*, u8*> c(s); w.check(c, false, false); c.free(); s.free();
}
H_GROUP(labels) { if (rng.chance(1, 2)) wide<u32>(rng); else wide<int>(rng); }
// More than 2^32 entries.
H_GROUP(huge) {
    const u64 m = (1ull << 32) + rng.range(1, 100000), G = 1ull << 30; if (!roomy(0, 10 * G)) return; typedef pigo::COO<u16, u64, u16*> S; typedef pigo::CSR<u16, u64, u16*, u64*> C; const u64 n = 60000; int t = (int)rng.pick({4, 8}); set_threads(t); label("coordinate object of " + std::to_string(m) + " entries threads=" + std::to_string(t)); stat("evaluations"); seen("inputs", m);
    const size_t P = 32u << 20; Rep x(rng, 2 * m, n, 2, P), y(rng, 2 * m, n, 2, P); S s((u16)n, (u16)n, (u16)n, m); u16 *ox = s.x(), *oy = s.y(); s.x() = (u16*)x.p; s.y() = (u16*)y.p; Box<C> b(0x5a); C& c = b.make(s); s.x() = ox; s.y() = oy; s.free();
    H_CHECK((u64)c.m() == m && c.n() == n, "entry-count", "m=%llu expected %llu", (unsigned long long)c.m(), (unsigned long long)m); const u64 per = P / 2, full = m / per, rest = m % per; const u16 *bx = (const u16*)x.block.data(), *by = (const u16*)y.block.data();
    std::vector<u64> cnt(n, 0), sum(n, 0); for (u64 i = 0; i < per; ++i) { u64 k = full + (i < rest); cnt[bx[i]] += k; sum[bx[i]] += k * mix(by[i]); } u64 at = 0;
    for (u64 v = 0; v < n; ++v) { H_CHECK(c.offsets()[v] == at && c.offsets()[v + 1] == at + cnt[v], "offsets", "row %llu is %llu..%llu expected %llu..%llu", (unsigned long long)v, (unsigned long long)c.offsets()[v], (unsigned long long)c.offsets()[v + 1], (unsigned long long)at, (unsigned long long)(at + cnt[v])); at += cnt[v]; }
    long bad = -1;
    #pragma omp parallel for schedule(dynamic, 64)
    for (long v = 0; v < (long)n; ++v) { u64 z = 0; for (u64 k = c.offsets()[v]; k < c.offsets()[v + 1]; ++k) z += mix(c.endpoints()[k]); if (z != sum[(size_t)v]) bad = v; }
    H_CHECK(bad < 0, "row-entry", "the entries of row %ld are not the ones it should have", bad); stat("entries_checked", m); c.free();
}
