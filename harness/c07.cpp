// C07: compressed to coordinate conversion is exact.
#include "obj.hpp"
#include "guard.hpp"
#include "wide.hpp"
using namespace h;

static Csr gen_csr_dims(Rng& r, const Mat& m) {
    Csr c = to_rows(m); c.n = c.rows.size();
    // one-based graphs: one more row than labels
    if (r.chance(1, 5) && c.nr == c.n) { c.nr = c.n + 1; c.rows.resize(c.nr); if (r.chance(1, 2)) { std::rotate(c.rows.rbegin(), c.rows.rbegin() + 1, c.rows.rend()); c.nc = std::max(c.nc, c.n); } }
    return c;
}
template<class T> void compare(T& t, const Csr& m, bool sym, bool ut, bool wg, std::function<u64(u64)> cw, const char* what) {
    Mat want; want.n = m.n; want.nr = m.nr; want.nc = m.nc; if (sym) want.nr = want.nc = std::max(m.nr, m.nc);
    for (size_t v = 0; v < m.rows.size(); ++v) for (auto& e : m.rows[v]) want.e.push_back({v, e.first, wg ? cw(e.second) : 0});
    want.e = apply_opts(want.e, sym, ut, false);
    Mat got = read_coo(t, wg);
    if (sym) { std::sort(got.e.begin(), got.e.end()); std::sort(want.e.begin(), want.e.end()); }   // the order of mirrored entries is not promised
    cmp_mat(got, want, what);
}
template<class CL, class CO, int K1, class CW, class L, class O, int K2, class W, bool WG, bool S, bool U> void conv(Rng& r, size_t cap = 6000, u64 dimcap = 30000) {
    typedef pigo::CSR<CL, CO, Store<CL, K1>, Store<CO, K1>, WG, CW, Store<CW, K1>> From; typedef pigo::COO<L, O, Store<L, K2>, S, U, false, WG, W, Store<W, K2>> To;
    u64 dim = std::min<u64>(std::min((u64)max_label<CL>(), (u64)max_label<L>()) - 1, dimcap), mc = std::min<u64>(std::min((u64)std::numeric_limits<CO>::max(), (u64)std::numeric_limits<O>::max()) / 2 - 1, cap);
    Mat mm = gen_mat<CW>(r, r.chance(1, 15) ? 0 : pick_count(r, mc), dim, WG); if (WG && sizeof(CW) >= 4 && r.chance(1, 3)) for (size_t i = 0; i < mm.e.size(); ++i) mm.e[i].w = wbits<CW>((CW)i);
    Csr m = gen_csr_dims(r, mm);
    int t = pick_threads(r); set_threads(t); stat("evaluations"); stat("entries_checked", m.m); seen("inputs", hash_mat(mm) ^ t ^ (S * 64 + U * 128)); stat_max("threads", t);
    label(std::string(tname<CL>()) + "," + tname<CO>() + "->" + tname<L>() + "," + tname<O>() + " opts=" + optname(S, U, false) + (WG ? std::string(" w:") + tname<CW>() + "->" + tname<W>() : "") + " threads=" + std::to_string(t) + " csr n=" + std::to_string(m.n) + " rows=" + std::to_string(m.nr) + " " + desc(mm));
    From f((CL)m.n, (CO)m.m, (CL)m.nr, (CL)m.nc); fill_csr(f, m, WG);
    Box<To> b(pick_pattern(r)); To& c = b.make(f);
    compare(c, m, S, U, WG, [](u64 w) { return wbits<W>((W)wfrom<CW>(w)); }, "converted");
    Csr after = read_csr(f, WG, "source after conversion"); cmp_rows(after, m, "source after conversion");
    c.free();
    if (sizeof(CL) == sizeof(L) && sizeof(CO) == sizeof(O) && r.chance(1, 3)) {   // through a compressed file
        std::string fn = tmp_name(); f.save(fn);
        typedef pigo::COO<CL, CO, Store<CL, K2>, S, U, false, WG, CW, Store<CW, K2>> T2; Box<T2> b2(pick_pattern(r)); int t2 = pick_threads(r); set_threads(t2);
        { guard::Scope g; if (r.chance(1, 2)) b2.make(fn); else b2.make(fn, pigo::PIGO_CSR_BIN); }
        compare(b2.get(), m, S, U, WG, [](u64 w) { return w; }, "loaded from compressed file"); b2.get().free(); stat("files_loaded");
        H_CHECK(guard::live_maps() == 0, "mapping-leak", "%zu mappings left", guard::live_maps());
    }
    f.free();
}
template<bool S, bool U> void types(Rng& rng) {
    switch (rng.below(10)) {
        case 8: conv<u32, u16, 0, int, u32, u8, 0, int, true, S, U>(rng); break;
        case 0: conv<u32, u32, 0, float, u32, u32, 0, float, false, S, U>(rng); break;
        case 1: conv<u32, u32, 0, float, u32, u32, 0, float, true, S, U>(rng); break;
        case 2: conv<u64, u64, 1, float, u32, u32, 0, float, false, S, U>(rng); break;
        case 3: conv<u32, u32, 2, int, u64, u64, 1, int64_t, true, S, U>(rng); break;
        case 4: conv<u16, u32, 0, float, u32, u64, 2, float, false, S, U>(rng); break;
        case 5: conv<u32, u32, 1, float, u32, u32, 1, double, true, S, U>(rng); break;
        case 6: conv<int, int, 0, int64_t, int, int, 0, int64_t, true, S, U>(rng); break;
        case 7: conv<u32, u64, 1, double, u32, u32, 2, double, true, S, U>(rng); break;
        default: conv<u8, u16, 0, int8_t, u8, u16, 1, int8_t, true, S, U>(rng); break;
    }
}
H_GROUP(plain) { types<false, false>(rng); }
H_GROUP(sym) { types<true, false>(rng); }
H_GROUP(symut) { types<true, true>(rng); }
H_GROUP(large) { size_t cap = 300000; if (rng.chance(1, 2)) conv<u32, u32, 0, int, u32, u32, 0, int, true, true, false>(rng, cap, 300000); else conv<u32, u32, 0, float, u32, u32, 0, float, false, false, false>(rng, cap, 300000); }
// Adjacency files into coordinate objects.
H_GROUP(graph) {
    bool one = rng.chance(1, 2); u64 n = rng.range(1, rng.pick<u64>({3, 20, 400})); std::string s; Csr m; m.n = n; m.nr = n + one; m.rows.resize(m.nr); u64 mx = 0, tot = 0;
    std::string body; bool zero = false;
    for (u64 i = 0; i < n; ++i) { size_t d = rng.below(5); std::string l; for (size_t k = 0; k < d; ++k) { u64 v = one + rng.below(n); if (i == n - 1 && !one && !zero) v = 0; zero |= v == 0; m.rows[i + one].push_back({v, 0}); mx = std::max(mx, v); ++tot; l += (k ? " " : "") + std::to_string(v); } body += l + "\n"; }
    if (!tot || (!one && !zero)) return;
    m.m = tot; m.nc = mx + 1; s = std::to_string(n) + " " + std::to_string(tot) + "\n" + body; std::string fn = new_file(s, ".graph");
    int t = pick_threads(rng); set_threads(t); stat("evaluations"); seen("inputs", hash_str(s) ^ t); label("graph threads=" + std::to_string(t) + " text=" + s.substr(0, 200));
    unsigned k = (unsigned)rng.below(3); guard::Scope g;
    if (k == 0) { pigo::COO<> c(fn); compare(c, m, false, false, false, nullptr, "graph file"); c.free(); }
    else if (k == 1) { pigo::COO<u64, u32, std::vector<u64>, true> c(fn); compare(c, m, true, false, false, nullptr, "graph file sym"); c.free(); }
    else { pigo::COO<u32, u64, std::shared_ptr<u32>, true, true> c(fn); compare(c, m, true, true, false, nullptr, "graph file sym+ut"); c.free(); }
}
H_GROUP(refused) {
    Mat mm = gen_mat<int>(rng, pick_count(rng, 300), 100, true); Csr m = to_rows(mm); int t = pick_threads(rng); set_threads(t); seen("inputs", hash_mat(mm) ^ t); stat("evaluations"); label("refused " + desc(mm));
    typedef pigo::CSR<u32, u32, u32*, u32*, true, int, int*> From; From f((u32)m.n, (u32)m.m, (u32)m.nr, (u32)m.nc); fill_csr(f, m, true); typedef std::vector<u32> V; typedef std::vector<int> VW;
    unsigned k = (unsigned)rng.below(6);
    must_throw([&] { switch (k) { case 0: { pigo::COO<u32, u32, V, false, true, false, true, int, VW> c(f); break; } case 1: { pigo::COO<u32, u32, V, false, false, true, true, int, VW> c(f); break; } case 2: { pigo::COO<u32, u32, V, true, false, true, true, int, VW> c(f); break; }
        case 3: { pigo::COO<u32, u32, V, true, true, true, true, int, VW> c(f); break; } case 4: { pigo::COO<u32, u32, V, false, true, true, true, int, VW> c(f); break; }
        default: { std::string fn = tmp_name(); f.save(fn); pigo::COO<u32, u32, V, false, true, false, true, int, VW> c(fn); } } }, true, "unsupported-accepted", "unsupported option");
    f.free();
}
// More than 2^32 entries.
H_GROUP(huge) {
    const u64 m = (1ull << 32) + rng.range(1, 100000), G = 1ull << 30, n = 200; if (!roomy(0, 9 * G)) return; typedef pigo::CSR<u8, u64, u8*, u64*> C; typedef pigo::COO<u8, u64, u8*> T; int t = (int)rng.pick({5, 8, 16}); set_threads(t); label("compressed object of " + std::to_string(m) + " entries threads=" + std::to_string(t)); stat("evaluations"); seen("inputs", m);
    Rep src(rng, m, n, 1); for (int k = 0; k < 40; ++k) src.p[rng.below(m)] = (char)rng.below(n); C s((u8)n, m, (u8)n, (u8)n); std::vector<u64> off(n + 1, 0); u64 big = rng.below(n); for (u64 v = 0; v < n; ++v) off[v + 1] = off[v] + (v == big ? m - 1000 * (n - 1) : 1000); std::copy(off.begin(), off.end(), s.offsets()); u8* own = s.endpoints(); s.endpoints() = (u8*)src.p;
    Box<T> b(0x5a); T& c = b.make(s); s.endpoints() = own; s.free(); H_CHECK((u64)c.m() == m && c.n() == n && c.nrows() == n && c.ncols() == n, "entry-count", "m=%llu expected %llu", (unsigned long long)c.m(), (unsigned long long)m); size_t d = differ((const char*)c.y(), src.p, m); H_CHECK(d == m, "entry", "column of entry %zu differs", d);
    for (u64 v = 0; v < n; ++v) for (u64 i = off[v]; i < off[v + 1]; i += std::min<u64>(1 << 20, off[v + 1] - i)) { u64 k = std::min<u64>(1 << 20, off[v + 1] - i); static std::string row; row.assign(k, (char)v); H_CHECK(!memcmp(c.x() + i, row.data(), k), "entry", "the row of an entry from %llu on is not %llu", (unsigned long long)i, (unsigned long long)v); }
    stat("entries_checked", m); c.free();
}
// So many rows that their number times the number of threads does not fit the label type.
template<class L, bool S> static void wide(Rng& r) {
    if (!roomy(0, 1ull << 30)) return; Wide w(r); label(w.what() + (std::is_signed<L>::value ? " signed" : "") + (S ? " symmetric" : "")); stat("evaluations"); seen("inputs", w.n * 64 + (u64)w.t); set_threads(w.t);
    pigo::CSR<L, u8, L*, u8*> f = wide_csr<L>(w); pigo::COO<L, u8, L*, S> c(f); f.free(); H_CHECK((u64)c.n() == w.n && (u64)c.nrows() == w.n && (u64)c.ncols() == w.n, "dimensions", "n=%llu nrows=%llu ncols=%llu expected %llu", (unsigned long long)c.n(), (unsigned long long)c.nrows(), (unsigned long long)c.ncols(), (unsigned long long)w.n);
    std::vector<std::pair<u64, u64>> want, got; for (auto& x : w.e) { want.push_back({x.x, x.y}); if (S && x.x != x.y) want.push_back({x.y, x.x}); } std::sort(want.begin(), want.end());
    H_CHECK((u64)c.m() == want.size(), "entry-count", "m=%llu expected %zu", (unsigned long long)c.m(), want.size()); for (size_t i = 0; i < want.size(); ++i) got.push_back({(u64)raw(c.x())[i], (u64)raw(c.y())[i]}); c.free();
    if (!S) H_CHECK(std::is_sorted(got.begin(), got.end(), [](const std::pair<u64, u64>& a, const std::pair<u64, u64>& b) { return a.first < b.first; }), "order", "rows out of order");
    std::sort(got.begin(), got.end()); for (size_t i = 0; i < want.size(); ++i) H_CHECK(got[i] == want[i], "entry", "entry %zu is (%llu, %llu) expected (%llu, %llu)", i, (unsigned long long)got[i].first, (unsigned long long)got[i].second, (unsigned long long)want[i].first, (unsigned long long)want[i].second);
}
H_GROUP(labels) { switch (rng.below(4)) { case 0: wide<u32, false>(rng); break; case 1: wide<int, false>(rng); break; case 2: wide<u32, true>(rng); break; default: wide<int, true>(rng); } }
