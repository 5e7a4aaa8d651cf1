// C17: copies are independent, transposing undoes itself, releasing frees everything once.
#include "ten.hpp"
#include "guard.hpp"
#include <mutex>
using namespace h;

// ---- monitor of the raw memory handed out to the code compiled here (linked with --wrap) ----
static bool mon_on = false; static std::mutex* mon_mu; static std::set<void*>* mon_live; static std::set<void*>* mon_dead; static const char* mon_err = nullptr; static u64 mon_allocs = 0;
#if !H_ASAN && !H_INSTR
extern "C" { void* __real_malloc(size_t); void __real_free(void*);
void* __wrap_malloc(size_t n) { void* p = __real_malloc(n); if (mon_on && p) { std::lock_guard<std::mutex> l(*mon_mu); mon_live->insert(p); mon_dead->erase(p); ++mon_allocs; } return p; }
void __wrap_free(void* p) { if (mon_on && p) { std::lock_guard<std::mutex> l(*mon_mu); if (mon_dead->count(p) && !mon_live->count(p)) { mon_err = "memory released twice"; return; } if (mon_live->erase(p)) mon_dead->insert(p); } __real_free(p); } }
#endif
struct Mon {
    Mon() { if (!mon_mu) { mon_mu = new std::mutex; mon_live = new std::set<void*>; mon_dead = new std::set<void*>; } mon_live->clear(); mon_dead->clear(); mon_err = nullptr; mon_allocs = 0; mon_on = true; }
    void end(const char* what) { mon_on = false; H_CHECK(!mon_err, "double-free", "%s: %s", what, mon_err); H_CHECK(mon_live->empty(), "leak", "%s: %zu of %llu raw allocations were not released", what, mon_live->size(), (unsigned long long)mon_allocs); stat("raw_allocations", mon_allocs); }
    ~Mon() { mon_on = false; }
};
static u64 hist_hash;
static void op(const char* n, u64 a, u64 b, std::string& log) { hist_hash = mix(hist_hash ^ hash_bytes(n, strlen(n)) ^ (a * 64 + b)); stat(std::string("op_") + n); if (log.size() < 360) { log += std::string(" ") + n + std::to_string(a) + "," + std::to_string(b); } }

// ---- histories over a few coordinate objects ----
template<class L, class O, int K, class W, bool WG> void coos(Rng& r, size_t maxops) {
    typedef pigo::COO<L, O, Store<L, K>, false, false, false, WG, W, Store<W, K>> C;
    Mon mon; const int N = 4; std::string log; hist_hash = K * 3 + sizeof(L);
    struct Slot { std::unique_ptr<C> o; Mat m; };
    {
        std::vector<Slot> s(N); size_t ops = r.range(3, maxops);
        auto fresh = [&](Slot& x) { Mat m = gen_mat<W>(r, r.chance(1, 6) ? 0 : r.chance(1, 10) ? r.range(1000, 5000) : r.below(40), std::min<u64>(max_label<L>(), 3000), WG); if (r.chance(1, 3)) m.n += r.below(3); x.o.reset(new C((L)m.n, (L)m.nr, (L)m.nc, (O)m.e.size())); fill_coo(*x.o, m, WG); x.m = m; };
        for (size_t i = 0; i < ops; ++i) {
            set_threads(pick_threads(r)); size_t a = r.below(N), b = r.below(N); Slot &A = s[a], &B = s[b]; label(log);
            if (!A.o) { unsigned k = (unsigned)r.below(4); if (k == 0) { op("default", a, 0, log); A.o.reset(new C); A.m = Mat(); } else if (k == 1 && B.o) { op("copy", a, b, log); const C& src = *B.o; A.o.reset(new C(src)); A.m = B.m; } else { op("new", a, 0, log); fresh(A); } }
            else switch (r.below(10)) {
                case 0: case 1: case 2: if (B.o) { op("assign", a, b, log); C& ret = (*A.o = *B.o); H_CHECK(&ret == A.o.get(), "assign", "assignment returned another object"); A.m = B.m; } break;
                case 3: case 4: if (!A.m.e.empty()) { op("modify", a, 0, log); size_t k = r.below(A.m.e.size()); E3& e = A.m.e[k]; e.x = r.below(100); e.y = r.below(100); raw(A.o->x())[k] = (L)e.x; raw(A.o->y())[k] = (L)e.y; if (WG) { e.w = wbits<W>(AnyW<W>::gen(r)); raw(A.o->w())[k] = wfrom<W>(e.w); } if (r.chance(1, 3)) { A.m.n = 101; A.o->set_n(101); A.m.nr = r.range(100, 120); A.o->set_nrows((L)A.m.nr); A.m.nc = r.range(100, 120); A.o->set_ncols((L)A.m.nc); } } break;
                case 5: case 6: { op("transpose", a, 0, log); C& ret = A.o->transpose(); H_CHECK(&ret == A.o.get(), "transpose", "transposing returned another object"); for (auto& e : A.m.e) std::swap(e.x, e.y); std::swap(A.m.nr, A.m.nc); if (r.chance(1, 3)) { A.o->transpose().transpose(); op("twice", a, 0, log); } break; }
                case 7: op("free", a, 0, log); A.o->free(); A.m.e.clear(); if (r.chance(1, 3)) A.o->free(); break;
                case 8: op("destroy", a, 0, log); A.o->free(); A.o.reset(); break;
                default: if (B.o) { op("copytemp", a, b, log); C t(*B.o); cmp_mat(read_coo(t, WG), B.m, "temporary copy"); if (!B.m.e.empty()) raw(t.x())[0] = (L)77; t.free(); } break;
            }
            for (int k = 0; k < N; ++k) if (s[k].o) { // every live object still equals its model
                Mat g = read_coo(*s[k].o, WG); char w[32]; snprintf(w, sizeof w, "object %d", k); if (s[k].m.e.empty()) H_CHECK(g.e.empty(), "entry-count", "%s: m=%zu expected 0", w, g.e.size()); else cmp_mat(g, s[k].m, w); stat("objects_compared"); }
        }
        for (auto& x : s) if (x.o) x.o->free();
    }
    stat("evaluations"); seen("inputs", hist_hash); mon.end("history");
}
template<class L, class O, int K, class W, bool WG> void tens(Rng& r, size_t maxops) {
    typedef pigo::Tensor<L, O, Store<L, K>, W, Store<W, K>, WG> C;
    Mon mon; const int N = 3; std::string log; hist_hash = K * 3 + sizeof(L) + 100;
    struct Slot { std::unique_ptr<C> o; Ten m; };
    {
        std::vector<Slot> s(N); size_t ops = r.range(3, maxops);
        for (size_t i = 0; i < ops; ++i) {
            set_threads(pick_threads(r)); size_t a = r.below(N), b = r.below(N); Slot &A = s[a], &B = s[b]; label(log);
            if (!A.o) { unsigned k = (unsigned)r.below(4); if (k == 0) { op("default", a, 0, log); A.o.reset(new C); A.m = Ten(); A.m.order = 0; } else if (k == 1 && B.o) { op("copy", a, b, log); const C& src = *B.o; A.o.reset(new C(src)); A.m = B.m; } else { op("new", a, 0, log); A.m = gen_ten<W>(r, r.chance(1, 6) ? 0 : r.chance(1, 10) ? r.range(500, 3000) : r.below(30), r.range(1, 6), std::min<u64>(200, max_label<L>()), WG); A.o.reset(new C((O)A.m.order, (O)A.m.m)); fill_ten(*A.o, A.m, WG); } }
            else switch (r.below(8)) {
                case 0: case 1: case 2: if (B.o) { op("assign", a, b, log); C& ret = (*A.o = *B.o); H_CHECK(&ret == A.o.get(), "assign", "assignment returned another object"); A.m = B.m; } break;
                case 3: case 4: if (A.m.m) { op("modify", a, 0, log); size_t k = r.below(A.m.c.size()); A.m.c[k] = r.below(100); raw(A.o->c())[k] = (L)A.m.c[k]; if (WG) { size_t q = r.below(A.m.m); A.m.w[q] = wbits<W>(AnyW<W>::gen(r)); raw(A.o->w())[q] = wfrom<W>(A.m.w[q]); } } break;
                case 5: op("free", a, 0, log); A.o->free(); A.m = Ten(); A.m.order = 0; if (r.chance(1, 3)) A.o->free(); break;
                case 6: op("destroy", a, 0, log); A.o->free(); A.o.reset(); break;
                default: if (B.o) { op("copytemp", a, b, log); C t(*B.o); cmp_ten(read_ten(t, WG), B.m, "temporary copy"); if (B.m.m) raw(t.c())[0] = (L)77; t.free(); } break;
            }
            for (int k = 0; k < N; ++k) if (s[k].o) { Ten g = read_ten(*s[k].o, WG); char w[32]; snprintf(w, sizeof w, "object %d", k); if (!s[k].m.m) H_CHECK(g.m == 0, "entry-count", "%s: m=%llu expected 0", w, (unsigned long long)g.m); else cmp_ten(g, s[k].m, w); stat("objects_compared"); }
        }
        for (auto& x : s) if (x.o) x.o->free();
    }
    stat("evaluations"); seen("inputs", hist_hash); mon.end("history");
}
H_GROUP(coo) { switch (rng.below(8)) { case 0: coos<u32, u32, 0, float, false>(rng, 25); break; case 1: coos<u32, u32, 0, float, true>(rng, 25); break; case 2: coos<u64, u64, 1, double, true>(rng, 25); break; case 3: coos<u32, u64, 2, int, true>(rng, 25); break; case 4: coos<u64, u32, 0, i64, true>(rng, 25); break; case 5: coos<u16, u32, 1, float, false>(rng, 25); break; case 6: coos<int, int, 2, float, false>(rng, 25); break; default: coos<u32, u16, 0, u8, true>(rng, 25); } }
H_GROUP(tensor) { switch (rng.below(6)) { case 0: tens<u32, u32, 0, float, true>(rng, 25); break; case 1: tens<u32, u32, 0, float, false>(rng, 25); break; case 2: tens<u64, u64, 1, double, true>(rng, 25); break; case 3: tens<u32, u16, 2, int, true>(rng, 25); break; case 4: tens<u8, u32, 0, u8, true>(rng, 25); break; default: tens<u64, u32, 1, float, false>(rng, 25); } }
// Mixed storage of coordinates and weights.
H_GROUP(mixed) {
    typedef pigo::COO<u32, u32, std::vector<u32>, false, false, false, true, float, float*> A; typedef pigo::COO<u32, u32, u32*, false, false, false, true, float, std::shared_ptr<float>> B;
    Mon mon; Mat m = gen_mat<float>(rng, rng.below(60), 50, true); hist_hash = hash_mat(m); label(desc(m)); set_threads(pick_threads(rng));
    { A a((u32)m.n, (u32)m.nr, (u32)m.nc, (u32)m.e.size()); fill_coo(a, m, true); A b(a), c; c = b; b.transpose(); a.free(); Mat mt = m; for (auto& e : mt.e) std::swap(e.x, e.y); std::swap(mt.nr, mt.nc); cmp_mat(read_coo(c, true), m, "mixed copy"); cmp_mat(read_coo(b, true), mt, "mixed transpose"); c = c; cmp_mat(read_coo(c, true), m, "self assigned"); b.free(); c.free(); c.free(); }
    { B a((u32)m.n, (u32)m.nr, (u32)m.nc, (u32)m.e.size()); fill_coo(a, m, true); B b(a), c; c = b; if (!m.e.empty()) raw(b.w())[0] += 1; a.free(); cmp_mat(read_coo(c, true), m, "mixed copy"); b.free(); b = c; cmp_mat(read_coo(b, true), m, "reassigned"); b.free(); c.free(); a.free(); }
    stat("evaluations"); seen("inputs", hist_hash); mon.end("mixed");
}
// Building by every route, then releasing (also twice), leaves no raw memory behind.
template<class L, class O, class W, bool WG> void routes(Rng& r) {
    typedef pigo::COO<L, O, L*, false, false, false, WG, W, W*> C; typedef pigo::COO<L, O, L*, true, false, false, WG, W, W*> CS; typedef pigo::CSR<L, O, L*, O*, WG, W, W*> R; typedef pigo::DiGraph<L, O, L*, O*, WG, W, W*> D; typedef pigo::Matrix<L, O, L*, O*, WG, W, W*> M; typedef pigo::Tensor<L, O, L*, W, W*, WG> T; typedef pigo::BaseGraph<L, O, L*, O*, WG, W, W*> G;
    Mat m = gen_mat<W>(r, r.chance(1, 6) ? 0 : r.below(60), 40, WG); set_threads(pick_threads(r)); std::string el; for (auto& e : m.e) el += std::to_string(e.x) + " " + std::to_string(e.y) + (WG ? " 3\n" : "\n"); if (el.empty()) el = "#\n";
    std::string mm = "%%MatrixMarket matrix coordinate real general\n50 50 " + std::to_string(m.e.size()) + "\n" + (m.e.empty() ? "" : el);
    std::string fel = new_file(el), fmm = new_file(mm, ".mtx"), fc = tmp_name(), fr = tmp_name(), fd = tmp_name(), ft = tmp_name(); label("routes " + desc(m)); unsigned which = (unsigned)r.below(12); hist_hash = hash_mat(m) ^ which ^ (WG << 8);
    { C c((L)m.n, (L)m.nr, (L)m.nc, (O)m.e.size()); fill_coo(c, m, WG); c.save(fc); R x(c); x.save(fr); D d(c); d.save(fd); T t((O)2, (O)m.e.size()); for (size_t i = 0; i < m.e.size(); ++i) { t.c()[2 * i] = (L)m.e[i].x; t.c()[2 * i + 1] = (L)m.e[i].y; if (WG) t.w()[i] = wfrom<W>(m.e[i].w); } t.save(ft); t.free(); c.free(); x.free(); d.free(); }
    bool again = r.chance(1, 2); Mon mon;
    auto rel = [&](auto& o) { o.free(); if (again) o.free(); };
    {
        switch (which) {
            case 0: { C o(r.chance(1, 2) ? fel : fc); rel(o); break; }
            case 1: { C o(r.chance(1, 2) ? fmm : fr); rel(o); break; }
            case 2: { CS o(r.chance(1, 2) ? fel : fr); rel(o); break; }
            case 3: { R o(r.chance(1, 2) ? fel : fmm); rel(o); break; }
            case 4: { R o(r.chance(1, 2) ? fc : fr); rel(o); break; }
            case 5: { D o(r.chance(1, 2) ? fel : fmm); rel(o); break; }
            case 6: { D o(r.chance(1, 2) ? fd : fc); rel(o); break; }
            case 7: { D o(fr); rel(o); break; }
            case 8: { M o(r.chance(1, 2) ? fel : r.chance(1, 2) ? fmm : fc); rel(o); break; }
            case 9: { T o(ft); rel(o); std::string wt = tmp_name(); T p(ft); if (p.m()) p.write(wt); p.max_labels(); rel(p); break; }
            case 10: { C c(fc); R x(c); R y = x.new_csr_without_dups(); C z(x); CS q(x); G g(c); D d(c); M mx(c); rel(c); rel(x); rel(y); rel(z); rel(q); rel(g); rel(d); rel(mx); break; }
            default: { R e; rel(e); C c; rel(c); T t; rel(t); G g; rel(g); R z((L)3, (O)0, (L)3, (L)3); rel(z); C y((L)3, (L)3, (L)3, (O)0); rel(y); T x((O)3, (O)0); rel(x); pigo::CSC<L, O, L*, O*, WG, W, W*> s; rel(s); break; }
        }
    }
    stat("evaluations"); seen("inputs", hist_hash); mon.end("route");
}
H_GROUP(routes) { switch (rng.below(4)) { case 0: routes<u32, u32, float, false>(rng); break; case 1: routes<u32, u32, float, true>(rng); break; case 2: routes<u64, u32, int, true>(rng); break; default: routes<u32, u64, double, false>(rng); } }
