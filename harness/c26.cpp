// C26: reported dimensions bound the entries after any chain of operations.
// Compiled once per storage kind (-DPART=0..2), part 0 holding the groups.
#ifndef PART
#define PART 0
#endif
#if PART
#define H_NO_MAIN
#endif
#include "ten.hpp"
#include "guard.hpp"
using namespace h;

inline std::string chain; inline u64 ch;
inline void note(const char* n, u64 k = 0) { chain += std::string(" ") + n; ch = mix(ch ^ hash_bytes(n, strlen(n)) ^ k); stat(std::string("op_") + n); label(chain.size() > 380 ? chain.substr(chain.size() - 380) : chain); }
struct Dim { u64 n, m, nr, nc; };
// `adj`: derived directly from an adjacency file, whose label count is the header's.
template<class C> void coo(C& c, u64 m, bool adj, const char* what) {
    u64 n = (u64)c.n(), nr = (u64)c.nrows(), nc = (u64)c.ncols(); H_CHECK((u64)c.m() == m, "entry-count", "%s: m=%llu expected %llu", what, (unsigned long long)c.m(), (unsigned long long)m);
    if (!adj) H_CHECK(n >= nr && n >= nc, "labels", "%s: n=%llu nrows=%llu ncols=%llu", what, (unsigned long long)n, (unsigned long long)nr, (unsigned long long)nc);
    for (u64 i = 0; i < m; ++i) { u64 x = (u64)raw(c.x())[i], y = (u64)raw(c.y())[i]; H_CHECK(x < nr && y < nc, "bounds", "%s: entry %llu of %llu is (%llu,%llu) with nrows=%llu ncols=%llu", what, (unsigned long long)i, (unsigned long long)m, (unsigned long long)x, (unsigned long long)y, (unsigned long long)nr, (unsigned long long)nc); }
    stat("coo_checked"); stat("entries_checked", m);
}
template<class C> void csr(C& c, u64 m, bool adj, const char* what) {
    u64 n = (u64)c.n(), nr = (u64)c.nrows(), nc = (u64)c.ncols(); H_CHECK((u64)c.m() == m, "entry-count", "%s: m=%llu expected %llu", what, (unsigned long long)c.m(), (unsigned long long)m);
    if (!adj) H_CHECK(n >= nr && n >= nc, "labels", "%s: n=%llu nrows=%llu ncols=%llu", what, (unsigned long long)n, (unsigned long long)nr, (unsigned long long)nc);
    Csr r = read_csr(c, false, what); u64 k = 0;
    for (u64 v = 0; v < r.rows.size(); ++v) { if (!r.rows[v].empty()) H_CHECK(v < nr, "bounds", "%s: row %llu has entries, nrows=%llu", what, (unsigned long long)v, (unsigned long long)nr); for (auto& e : r.rows[v]) { H_CHECK(e.first < nc, "bounds", "%s: row %llu has endpoint %llu, ncols=%llu", what, (unsigned long long)v, (unsigned long long)e.first, (unsigned long long)nc); ++k; } }
    H_CHECK(k == m, "entry-count", "%s: %llu entries present, m=%llu", what, (unsigned long long)k, (unsigned long long)m); stat("csr_checked"); stat("entries_checked", m);
}
template<class L, class O, int K, bool WG> struct Run {
    typedef Store<L, K> S; typedef Store<O, K> OS; typedef Store<float, K> WS; typedef pigo::COO<L, O, S, false, false, false, WG, float, WS> C; typedef pigo::COO<L, O, S, true, false, false, WG, float, WS> CS; typedef pigo::COO<L, O, S, true, true, false, WG, float, WS> CU; typedef pigo::COO<L, O, S, false, true, true, WG, float, WS> CX; typedef pigo::COO<L, O, S, true, false, true, WG, float, WS> CY;
    typedef pigo::CSR<L, O, S, OS, WG, float, WS> R; typedef pigo::DiGraph<L, O, S, OS, WG, float, WS> D; typedef pigo::Matrix<L, O, S, OS, WG, float, WS> M;
    // Current object: coordinate or compressed; the number of entries and of off-diagonal ones is known.
    std::unique_ptr<C> c; std::unique_ptr<R> r; bool adj = false; u64 m = 0, diag = 0;
    void set(C* x) { drop(); c.reset(x); } void set(R* x) { drop(); r.reset(x); }
    void drop() { if (c) c->free(); if (r) r->free(); c.reset(); r.reset(); }
    ~Run() { drop(); }
    void check() { if (c) coo(*c, m, adj, "object"); else csr(*r, m, adj, "object"); }
    void count() { diag = 0; if (c) { for (u64 i = 0; i < m; ++i) diag += raw(c->x())[i] == raw(c->y())[i]; } else { Csr q = read_csr(*r, false); for (u64 v = 0; v < q.rows.size(); ++v) for (auto& e : q.rows[v]) diag += e.first == v; } }
    template<class X> C* plain(X& x) { C* y = new C((L)x.n(), (L)x.nrows(), (L)x.ncols(), (O)x.m()); for (u64 i = 0; i < (u64)x.m(); ++i) { raw(y->x())[i] = raw(x.x())[i]; raw(y->y())[i] = raw(x.y())[i]; if (WG) raw(y->w())[i] = raw(x.w())[i]; } return y; }
    std::string text(Mat& q) { std::string s; for (auto& e : q.e) s += std::to_string(e.x) + " " + std::to_string(e.y) + (WG ? " 2\n" : "\n"); return s; }
    void start(Rng& g, size_t cap, u64 d) {
        Mat q = gen_mat<float>(g, 1 + pick_count(g, cap), d, WG); m = q.e.size(); ch = mix(hash_mat(q)); chain = "start n=" + std::to_string(q.n) + " " + std::to_string(q.nr) + "x" + std::to_string(q.nc) + " m=" + std::to_string(m); adj = false; unsigned k = (unsigned)g.below(9);
        u64 dg = 0, up = 0; for (auto& e : q.e) { dg += e.x == e.y; up += e.x < e.y; }
        std::string mm = "%%MatrixMarket matrix coordinate " + std::string(WG ? "real" : "pattern") + " general\n" + std::to_string(q.nr) + " " + std::to_string(q.nc) + " " + std::to_string(m) + "\n" + text(q); bool usemm = g.chance(1, 2); std::string f = usemm ? new_file(mm, ".mtx") : new_file(text(q));
        switch (k) {
            case 0: { note("el"); C* x = new C(f); set(x); break; }
            case 1: { note("sym"); m = 2 * m - dg; CS x(f); coo(x, m, false, "symmetrised load"); set(plain(x)); x.free(); break; }
            case 2: { note("symut"); CU x(f); coo(x, m, false, "symmetrised upper load"); set(plain(x)); x.free(); break; }
            case 3: { note("ut-sl"); m = up; CX x(f); coo(x, m, false, "filtered load"); set(plain(x)); x.free(); break; }
            case 4: { note("sym-sl"); m = 2 * (m - dg); CY x(f); coo(x, m, false, "symmetrised filtered load"); set(plain(x)); x.free(); break; }
            case 5: { note("csr"); set(new R(f)); break; }
            case 6: if (!WG) { note("graph"); u64 n = q.nr; for (auto& e : q.e) { e.x %= n; e.y %= n; } bool zero = g.chance(1, 2); if (zero) q.e.push_back({g.below(n), 0, 0}); m = q.e.size(); Csr rows = to_rows(q); std::string s = std::to_string(n) + " " + std::to_string(m) + "\n"; for (u64 v = 0; v < n; ++v) { for (auto& e : rows.rows[v]) s += std::to_string(e.first + !zero) + " "; s += "\n"; } std::string gf = new_file(s, ".graph"); adj = true; if (g.chance(1, 2)) set(new R(gf)); else set(new C(gf)); break; } // fall through
            default: { note("filled"); C* x = new C((L)q.n, (L)q.nr, (L)q.nc, (O)m); fill_coo(*x, q, WG); set(x); }
        }
    }
    void step(Rng& g) {
        int t = pick_threads(g); set_threads(t);
        if (c) switch (g.below(9)) {
            case 0: case 1: note("transpose", t); c->transpose(); break;
            case 2: case 3: { note("compress", t); R* x = new R(*c); set(x); if (adj) { csr(*r, m, false, "compressed"); adj = false; } break; }
            case 4: { note("copy", t); C* x = new C(*c); set(x); break; }
            case 5: { note("save", t); std::string f = tmp_name(); c->save(f); set_threads(pick_threads(g)); C* x = new C(f); set(x); break; }
            case 6: { note("save-compress", t); std::string f = tmp_name(); c->save(f); set_threads(pick_threads(g)); R* x = new R(f); set(x); adj = false; break; }
            case 7: if (m) { note("write", t); std::string f = tmp_name(); c->write(f); set_threads(pick_threads(g)); if (g.chance(1, 2)) { C* x = new C(f); set(x); } else { count(); u64 want = 2 * m - diag; CS x(f); coo(x, want, false, "symmetrised reload"); m = want; C* y = plain(x); x.free(); set(y); } adj = false; } break;
            default: { if (g.chance(1, 2)) { note("digraph", t); D d(*c); csr(d.out(), m, false, "out"); csr(d.in(), m, false, "in"); R* x = new R((L)d.in().n(), (O)d.in().m(), (L)d.in().nrows(), (L)d.in().ncols()); Csr q = read_csr(d.in(), WG); fill_csr(*x, q, WG); d.free(); set(x); adj = false; }
                       else { note("matrix", t); M d(*c); csr(d.csr(), m, false, "rows"); csr(d.csc(), m, false, "columns"); H_CHECK(d.nrows() == c->nrows() && d.ncols() == c->ncols(), "dims", "matrix dimensions"); d.free(); } }
        } else switch (g.below(8)) {
            case 0: case 1: { note("expand", t); C* x = new C(*r); set(x); break; }
            case 2: { note("expand-sym", t); count(); u64 want = 2 * m - diag; CS x(*r); coo(x, want, adj, "symmetrised expansion"); C* y = plain(x); x.free(); set(y); m = want; break; }
            case 3: { note("expand-symut", t); CU x(*r); coo(x, m, adj, "symmetrised upper expansion"); C* y = plain(x); x.free(); set(y); break; }
            case 4: { note("sort", t); r->sort(); break; }
            case 5: { note("dedup", t); std::set<std::pair<u64, u64>> s; Csr q = read_csr(*r, false); for (u64 v = 0; v < q.rows.size(); ++v) for (auto& e : q.rows[v]) s.insert({v, e.first}); R* x = new R(r->new_csr_without_dups()); m = s.size(); set(x); break; }
            case 6: { note("save", t); std::string f = tmp_name(); r->save(f); set_threads(pick_threads(g)); R* x = new R(f); set(x); break; }
            default: { note("save-expand", t); std::string f = tmp_name(); r->save(f); set_threads(pick_threads(g)); C* x = new C(f); set(x); }
        }
    }
    void go(Rng& g, size_t cap, u64 d, size_t ops) { set_threads(pick_threads(g)); start(g, cap, d); check(); for (size_t i = 0; i < ops && m < 20 * cap; ++i) { step(g); check(); } stat("evaluations"); seen("inputs", ch); }
};
void run0(Rng& r, size_t cap, u64 d, size_t ops); void run1(Rng& r, size_t cap, u64 d, size_t ops); void run2(Rng& r, size_t cap, u64 d, size_t ops);
#if PART == 0
void run0(Rng& r, size_t cap, u64 d, size_t ops) { switch (r.below(4)) { case 0: Run<u32, u32, 0, false>().go(r, cap, d, ops); break; case 1: Run<u64, u32, 0, true>().go(r, cap, d, ops); break; case 2: Run<u32, u16, 0, true>().go(r, std::min<size_t>(cap, 600), std::max<u64>(d, 70000), ops); break; default: Run<u16, u32, 0, false>().go(r, cap, std::min<u64>(d, 60000), ops); } }
#elif PART == 1
void run1(Rng& r, size_t cap, u64 d, size_t ops) { switch (r.below(2)) { case 0: Run<u64, u64, 1, true>().go(r, cap, d, ops); break; default: Run<u32, u64, 1, false>().go(r, cap, d, ops); } }
#else
void run2(Rng& r, size_t cap, u64 d, size_t ops) { switch (r.below(2)) { case 0: Run<u32, u32, 2, true>().go(r, cap, d, ops); break; default: Run<int, u64, 2, false>().go(r, cap, d, ops); } }
#endif
#if PART == 0
H_GROUP(chains) { size_t ops = rng.range(1, 12); switch (rng.below(3)) { case 0: run0(rng, 200, 120, ops); break; case 1: run1(rng, 200, 120, ops); break; default: run2(rng, 200, 120, ops); } }
H_GROUP(large) { run0(rng, 60000, 100000, 5); }
// Tensors: the maximum labels bound the coordinates.
H_GROUP(tensor) {
    typedef pigo::Tensor<u32, u32, u32*, float, float*, true> T; Ten m = gen_ten<float>(rng, 1 + rng.below(200), rng.range(1, 6), 100000, true); chain = "tensor " + desc(m); label(chain); T t((u32)m.order, (u32)m.m); fill_ten(t, m, true); std::string f = tmp_name();
    for (int i = 0; i < 3; ++i) { set_threads(pick_threads(rng)); auto mx = t.max_labels(); H_CHECK(mx.size() == m.order && (u64)t.m() == m.m && (u64)t.order() == m.order, "dims", "%zu maxima, order %llu m %llu", mx.size(), (unsigned long long)t.order(), (unsigned long long)t.m()); for (u64 k = 0; k < m.m * m.order; ++k) H_CHECK(t.c()[k] <= mx[k % m.order], "bounds", "coordinate %llu above its maximum", (unsigned long long)k); if (i == 0) t.save(f); else if (i == 1) { f = tmp_name(); for (u64 k = 0; k < m.m; ++k) t.w()[k] = 1; t.write(f); } if (i < 2) { t.free(); set_threads(pick_threads(rng)); new (&t) T(f); } stat("tensors_checked"); }
    t.free(); stat("evaluations"); seen("inputs", hash_ten(m));
}
#endif
