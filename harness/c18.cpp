// C18: the two views of directed graphs and matrices hold the same entries.
// Compiled once per storage kind (-DPART=0..2), part 0 holding the groups.
#ifndef PART
#define PART 0
#endif
#if PART
#define H_NO_MAIN
#endif
#include "ten.hpp"
#include "guard.hpp"
using namespace h;

static Mat flip(Mat m) { for (auto& e : m.e) std::swap(e.x, e.y); std::swap(m.nr, m.nc); return m; }
static void by_rows(Csr& c) { sort_rows(c); }
// Both views against the coordinate model.
template<class A, class B> void views(A& rowv, B& colv, const Mat& m, bool wg, const char* what) {
    std::string s(what); Csr want = to_rows(m), wantt = to_rows(flip(m)); want.n = wantt.n = m.n; want.rows.resize(std::max(m.n, m.nr)); wantt.rows.resize(std::max(m.n, m.nc)); by_rows(want); by_rows(wantt);
    Csr g = read_csr(rowv, wg, (s + " rows").c_str()), t = read_csr(colv, wg, (s + " columns").c_str()); by_rows(g); by_rows(t);
    cmp_csr(g, want, (s + " row view").c_str()); cmp_csr(t, wantt, (s + " column view").c_str());
    stat("views_compared", 2); stat("entries_compared", 2 * m.e.size());
}
template<class D> void digraph(D& d, const Mat& m, bool wg, const char* what) {
    views(d.out(), d.in(), m, wg, what);
    H_CHECK((u64)d.m() == m.e.size() && (u64)d.n() == m.n && (u64)d.nrows() == m.nr && (u64)d.ncols() == m.nc, "counts", "%s: n=%llu m=%llu nrows=%llu ncols=%llu expected %llu %zu %llu %llu", what, (unsigned long long)d.n(), (unsigned long long)d.m(), (unsigned long long)d.nrows(), (unsigned long long)d.ncols(), (unsigned long long)m.n, m.e.size(), (unsigned long long)m.nr, (unsigned long long)m.nc);
}
template<class M> void matrix(M& x, const Mat& m, bool wg, const char* what) {
    views(x.csr(), x.csc(), m, wg, what);
    H_CHECK((u64)x.nrows() == m.nr && (u64)x.ncols() == m.nc, "counts", "%s: nrows=%llu ncols=%llu expected %llu %llu", what, (unsigned long long)x.nrows(), (unsigned long long)x.ncols(), (unsigned long long)m.nr, (unsigned long long)m.nc);
}
// Text weights are small integers, exact in every type.
template<class W> void text_weights(Rng& r, Mat& m, bool wg) { for (auto& e : m.e) if (wg) e.w = wbits<W>((W)(r.below(3) ? r.below(100) : r.below(120))); }
template<class W> std::string text(const Mat& m, bool wg) { std::string s; for (auto& e : m.e) { s += std::to_string(e.x) + " " + std::to_string(e.y); if (wg) s += " " + std::to_string((long)wfrom<W>(e.w)); s += "\n"; } return s; }
static void tight(Mat& m) { m.nr = m.nc = 0; for (auto& e : m.e) { m.nr = std::max(m.nr, e.x + 1); m.nc = std::max(m.nc, e.y + 1); } m.n = std::max(m.nr, m.nc); }

template<class L, class O, int K, class W, bool WG> void run(Rng& r, size_t cap, u64 maxdim) {
    typedef Store<L, K> S; typedef Store<O, K> OS; typedef Store<W, K> WS;
    typedef pigo::DiGraph<L, O, S, OS, WG, W, WS> D; typedef pigo::Matrix<L, O, S, OS, WG, W, WS> M; typedef pigo::COO<L, O, S, false, false, false, WG, W, WS> C; typedef pigo::COO<L, O, S, true, false, false, WG, W, WS> CS; typedef pigo::CSR<L, O, S, OS, WG, W, WS> R;
    size_t cnt = pick_count(r, cap); Mat m = gen_mat<W>(r, cnt, maxdim, WG);
    unsigned route = (unsigned)r.below(12); bool mat = r.chance(2, 5); int t1 = pick_threads(r), t2 = pick_threads(r); int pat = pick_pattern(r);
    char head[96]; snprintf(head, sizeof head, "route=%u %s L=%s W=%s%s K=%d threads=%d,%d ", route, mat ? "Matrix" : "DiGraph", tname<L>(), WG ? tname<W>() : "-", "", K, t1, t2); label(head + desc(m));
    Box<D> bd(pat); Box<M> bm(pat); set_threads(t1);
    auto coo_of = [&](const Mat& q) { C c((L)q.n, (L)q.nr, (L)q.nc, (O)q.e.size()); fill_coo(c, q, WG); return c; };
    guard::Scope gs;
    switch (route) {
        case 0: case 1: case 2: { // from a coordinate object, which stays as it was
            if (r.chance(1, 3)) m.n += r.below(3); C c = coo_of(m); set_threads(t2); if (mat) bm.make(c); else bd.make(c); cmp_mat(read_coo(c, WG), m, "source"); c.free(); break; }
        case 3: { // from a symmetrised object loaded from text
            text_weights<W>(r, m, WG); if (m.e.empty()) m.e.push_back({0, 0, WG ? wbits<W>((W)1) : 0}); std::string f = new_file(text<W>(m, WG)); CS c(f); m = read_coo(c, WG); set_threads(t2); if (mat) bm.make(c); else bd.make(c); cmp_mat(read_coo(c, WG), m, "symmetrised source"); c.free(); break; }
        case 4: case 5: { // edge list
            text_weights<W>(r, m, WG); if (m.e.empty()) m.e.push_back({0, 0, WG ? wbits<W>((W)1) : 0}); tight(m); std::string f = new_file(text<W>(m, WG)); set_threads(t2);
            if (mat) bm.make(f); else if (r.chance(1, 2)) bd.make(f); else bd.make(f, r.chance(1, 2) ? pigo::EDGE_LIST : pigo::AUTO); break; }
        case 6: { // matrix market
            text_weights<W>(r, m, WG); m.nr += r.below(3); m.nc += r.below(3); std::string s = "%%MatrixMarket matrix coordinate " + std::string(WG ? "real" : "pattern") + " general\n" + std::to_string(m.nr) + " " + std::to_string(m.nc) + " " + std::to_string(m.e.size()) + "\n" + text<W>(m, WG); ++m.nr; ++m.nc; m.n = std::max(m.nr, m.nc);
            std::string f = new_file(s, ".mtx"); set_threads(t2); if (mat) bm.make(f); else if (r.chance(1, 2)) bd.make(f); else bd.make(f, pigo::MATRIX_MARKET); break; }
        case 7: { C c = coo_of(m); std::string f = tmp_name(); c.save(f); c.free(); set_threads(t2); if (mat) bm.make(f); else if (r.chance(1, 2)) bd.make(f); else { pigo::ROFile rf(f); bd.make(rf, pigo::PIGO_COO_BIN); } break; }
        case 8: { C c = coo_of(m); R x(c); std::string f = tmp_name(); x.save(f); c.free(); x.free(); set_threads(t2); if (mat) bm.make(f); else if (r.chance(1, 2)) bd.make(f); else bd.make(f, pigo::PIGO_CSR_BIN); break; }
        case 9: case 10: { C c = coo_of(m); D d(c); c.free(); std::string f = tmp_name(); d.save(f); digraph(d, m, WG, "saved"); d.free(); mat = false; set_threads(t2); if (r.chance(1, 2)) bd.make(f); else { pigo::ROFile rf(f); bd.make(rf, r.chance(1, 2) ? pigo::AUTO : pigo::PIGO_DIGRAPH_BIN); } break; }
        default: { // adjacency file (unweighted), zero-based
            if (WG) { C c = coo_of(m); set_threads(t2); if (mat) bm.make(c); else bd.make(c); c.free(); break; }
            for (auto& e : m.e) { e.x %= m.nr; e.y %= m.nr; e.w = 0; } m.e.push_back({r.below(m.nr), 0, 0}); m.n = m.nr; m.nc = 0; for (auto& e : m.e) m.nc = std::max(m.nc, e.y + 1); Csr rows = to_rows(m); std::string s = std::to_string(m.nr) + " " + std::to_string(m.e.size()) + "\n"; for (auto& row : rows.rows) { for (auto& e : row) s += std::to_string(e.first) + " "; s += "\n"; }
            std::string f = new_file(s, ".graph"); set_threads(t2); if (mat) bm.make(f); else if (r.chance(1, 2)) bd.make(f); else bd.make(f, pigo::GRAPH); break; }
    }
    stat(std::string("route_") + std::to_string(route) + (mat ? "m" : "d")); label(head + desc(m)); seen("inputs", mix(hash_mat(m)) ^ mix(route * 64 + t2) ^ mat); stat("evaluations");
    if (mat) { matrix(bm.get(), m, WG, "matrix"); bm.get().free(); } else { digraph(bd.get(), m, WG, "digraph"); bd.get().free(); }
}
void run0(Rng& r, size_t cap, u64 d); void run1(Rng& r, size_t cap, u64 d); void run2(Rng& r, size_t cap, u64 d);
#if PART == 0
void run0(Rng& r, size_t cap, u64 d) { switch (r.below(4)) { case 0: run<u32, u32, 0, float, true>(r, cap, d); break; case 1: run<u32, u32, 0, float, false>(r, cap, d); break; case 2: run<u64, u32, 0, u8, true>(r, cap, d); break; default: run<u16, u32, 0, i64, true>(r, cap, std::min<u64>(d, 60000)); } }
#elif PART == 1
void run1(Rng& r, size_t cap, u64 d) { switch (r.below(4)) { case 0: run<u64, u64, 1, double, true>(r, cap, d); break; case 1: run<u32, u64, 1, int, true>(r, cap, d); break; case 2: run<u16, u8, 1, float, false>(r, std::min<size_t>(cap, 120), 20000); break; default: run<int, u32, 1, float, false>(r, cap, d); } }
#else
void run2(Rng& r, size_t cap, u64 d) { switch (r.below(4)) { case 0: run<u32, u32, 2, float, true>(r, cap, d); break; case 1: run<u32, u64, 2, double, false>(r, cap, d); break; case 2: run<u32, u8, 2, u8, true>(r, std::min<size_t>(cap, 120), 20000); break; default: run<u16, u32, 2, u16, true>(r, cap, std::min<u64>(d, 60000)); } }
#endif
#if PART == 0
H_GROUP(small) { switch (rng.below(3)) { case 0: run0(rng, 400, 300); break; case 1: run1(rng, 400, 300); break; default: run2(rng, 400, 300); } }
H_GROUP(large) { run0(rng, 200000, 200000); }
// Different types of the coordinate source.
H_GROUP(cross) {
    Mat m = gen_mat<float>(rng, pick_count(rng, 500), 250, true); set_threads(pick_threads(rng)); label("cross " + desc(m)); stat("evaluations"); seen("inputs", hash_mat(m));
    if (rng.chance(1, 2)) { pigo::COO<u16, u64, std::vector<u16>, true, true, true, true, float, std::shared_ptr<float>> c((u16)m.n, (u16)m.nr, (u16)m.nc, m.e.size()); fill_coo(c, m, true); pigo::DiGraph<u64, u32, u64*, u32*, true, float, float*> d(c); digraph(d, m, true, "cross"); d.free(); pigo::Matrix<u32, u64, u32*, std::vector<u64>, true, float, std::vector<float>> x(c); matrix(x, m, true, "cross"); x.free(); }
    else { pigo::COO<u64, u32, u64*, false, false, false, true, float, float*> c(m.n, m.nr, m.nc, (u32)m.e.size()); fill_coo(c, m, true); pigo::DiGraph<u16, u64, std::shared_ptr<u16>, std::vector<u64>, true, float, std::vector<float>> d(c); digraph(d, m, true, "cross"); d.free(); pigo::Matrix<u16, u32, std::vector<u16>, u32*, true, float, float*> x(c); matrix(x, m, true, "cross"); x.free(); c.free(); }
}
#endif
