// C33: the work of an operation is in proportion to its data, is not repeated by every
// thread of a team, and is shared among them. Work is counted in basic blocks executed
// (gcc -fsanitize-coverage=trace-pc) and bytes moved, per thread.
#include "ten.hpp"
#include "guard.hpp"
using namespace h;
#define NOCOV __attribute__((no_sanitize_coverage))
namespace work {
struct alignas(64) Slot { u64 n; };
inline Slot slots[4096]; inline unsigned next_id; inline volatile bool on;
inline thread_local Slot* mine = nullptr;
NOCOV inline void add(u64 k) { if (!on) return; Slot* s = mine; if (!s) { s = mine = &slots[__atomic_fetch_add(&next_id, 1u, __ATOMIC_RELAXED) & 4095]; } s->n += k; }
struct Sum { u64 total = 0, top = 0; };
}
extern "C" {
NOCOV void __sanitizer_cov_trace_pc() { work::add(1); }
void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t); void* __real_memchr(const void*, int, size_t);
NOCOV void* __wrap_memcpy(void* d, const void* s, size_t n) { work::add(n / 16); return __real_memcpy(d, s, n); }
NOCOV void* __wrap_memmove(void* d, const void* s, size_t n) { work::add(n / 16); return __real_memmove(d, s, n); }
NOCOV void* __wrap_memset(void* d, int c, size_t n) { work::add(n / 16); return __real_memset(d, c, n); }
NOCOV void* __wrap_memchr(const void* d, int c, size_t n) { void* r = __real_memchr(d, c, n); work::add((r ? (size_t)((char*)r - (char*)d) : n) / 16); return r; }
}
// Work of f in a team of t, by the threads together and by the busiest one.
template<class F> NOCOV static work::Sum count(int t, F&& f) {
    set_threads(t); for (auto& s : work::slots) s.n = 0; work::on = true; __sync_synchronize(); f(); __sync_synchronize(); work::on = false;
    work::Sum r; for (auto& s : work::slots) { r.total += s.n; r.top = std::max(r.top, s.n); } return r;
}

typedef pigo::COO<u32, u32, u32*> C; typedef pigo::COO<u32, u32, u32*, false, false, false, true, float, float*> WC; typedef pigo::CSR<u32, u32, u32*, u32*> R; typedef pigo::CSR<u32, u32, u32*, u32*, true, float, float*> WR;
typedef pigo::COO<u32, u32, u32*, true, false, true, true, float, float*> WS; typedef pigo::COO<u32, u32, std::vector<u32>, false, true, true> V; typedef pigo::COO<u32, u32, u32*, true, true, false, true, int, int*> U; typedef pigo::Tensor<u32, u32, u32*, float, float*, true> T;

// ---- text ----
// Shapes; the first SPREAD ones hold their entries evenly, the others have parts without any.
static const char* shapes[] = {"plain", "comments", "trailing", "blank", "spaces", "columns", "hotrow", "loops", "crlf", "decimals", "lower", "sorted", "comment run", "blank run", "leading run", "ending run", "indent run"};
static const unsigned SPREAD = 12, SHAPES = sizeof shapes / sizeof *shapes;
static std::string shape(Rng& r, unsigned k, size_t n, u64 labels, int kind) {     // kind 0 edges, 1 matrix market, 2 tensor, 3 adjacency
    std::string s, body; size_t m = 0; std::string run; if (k >= SPREAD) for (size_t i = 0; i < n; ++i) run += k == 12 || k == 14 ? "# c 12\n" : k == 16 ? "   \n" : "\n";
    bool tail = k == 6; u64 hot = r.below(labels);
    for (size_t i = 0; i < n; ++i) {
        u64 x = tail ? hot : k == 11 ? i * labels / n : r.below(labels), y = k == 7 ? x : r.below(labels); if (k == 10 && x < y) std::swap(x, y);
        if (kind == 3) { unsigned d = (unsigned)r.below(4); for (unsigned j = 0; j < d; ++j) { body += std::to_string(1 + r.below(n)) + (k == 4 ? "     " : " "); ++m; } if (k == 2 && d) body += "% t"; body += k == 8 ? "\r\n" : "\n"; if (k == 1) body += "% comment 1 2\n"; if (i == n / 2 && k == 12) body += run; continue; }
        body += std::to_string(x); body += k == 4 ? "      " : " "; body += std::to_string(y); if (kind == 2) body += " " + std::to_string(r.below(9)); body += k == 9 ? " " + std::to_string(r.below(9)) + ".123456789e-2" : " " + std::to_string(r.below(9)); ++m;
        if (k == 5 && kind != 2) body += " 11 12 13 14 15"; if (k == 2) body += " # trailing"; if (k == 4) body += "      "; body += k == 8 ? "\r\n" : "\n"; if (k == 1) body += "# comment 1 2\n"; if (k == 3) body += "\n\n";
        if (i == n / 2 && (k == 12 || k == 13 || k == 16)) body += run;
    }
    if (kind == 1) s = "%%MatrixMarket matrix coordinate real general\n" + std::to_string(labels) + " " + std::to_string(labels) + " " + std::to_string(m) + "\n"; if (kind == 3) s = std::to_string(n) + " " + std::to_string(m) + "\n";
    if (kind != 3 && k == 14) s += run; s += body; if (kind != 3 && k == 15) s += run; return s;
}
struct Load { const char* n; int kind; void (*f)(const std::string&); };
template<class X> static void ld(const std::string& f) { X c(f); c.free(); }
static void ld_find(const std::string& f) { pigo::ROFile r(f); pigo::FileReader q = r.reader(); pigo::Tensor<u64, u64> x = q.find_offsets<pigo::Tensor<u64, u64>>('\n'); x.free(); }
static const Load loads[] = {{"coo", 0, ld<C>}, {"coo weighted", 0, ld<WC>}, {"coo sym sl weighted", 0, ld<WS>}, {"coo ut sl", 0, ld<V>}, {"coo sym ut int", 0, ld<U>}, {"mm", 1, ld<C>}, {"mm weighted", 1, ld<WC>}, {"tensor", 2, ld<T>}, {"graph csr", 3, ld<R>}, {"find", 0, ld_find},
    {"csr", 0, ld<R>}, {"csr weighted", 0, ld<WR>}, {"digraph", 0, ld<pigo::DiGraph<>>}, {"matrix mm", 1, ld<pigo::Matrix<>>}, {"graph coo", 3, ld<C>}};
static const unsigned SHARED_LOADS = 10, LOADS = sizeof loads / sizeof *loads;

static void linear(const work::Sum& a, const work::Sum& b, double f, const char* what, int t) { H_CHECK((double)b.total <= 1.7 * f * (double)a.total + 60000, "growth", "%s with %d threads: %.1f times the data take %llu instead of %llu steps", what, t, f, (unsigned long long)b.total, (unsigned long long)a.total); }
static void team(const work::Sum& one, const work::Sum& b, bool spread, const char* what, int t) {
    if (spread) H_CHECK((double)b.total <= 1.6 * (double)one.total + 60000 + 600.0 * t, "repeated", "%s takes %llu steps with %d threads, %llu with one", what, (unsigned long long)b.total, t, (unsigned long long)one.total);
    H_CHECK((double)b.top <= 1.6 * (double)one.total + 60000 + 600.0 * t, "repeated", "%s: one of %d threads takes %llu steps, %llu suffice alone", what, t, (unsigned long long)b.top, (unsigned long long)one.total);
}
// A loop may be scheduled dynamically, and a thread that is alone for a while may rightly take more than its part: the best of several runs counts.
template<class F> static void shared(const work::Sum& one, const work::Sum& b, const char* what, int t, F again) {
    if (t < 3 || omp_get_dynamic()) return;
    double lim = std::max(1.8 / t, 0.22) * (double)one.total + 30000; u64 top = b.top;
    for (int i = 0; i < 12 && (double)top > lim; ++i) { top = std::min<u64>(top, count(t, again).top); stat("shares_repeated"); }
    H_CHECK((double)top <= lim, "unshared", "%s: one of %d threads takes %llu of %llu steps", what, t, (unsigned long long)top, (unsigned long long)one.total); stat("shares_checked");
}
static void tally(const char* what, int t, const work::Sum& a) { stat("evaluations"); stat("steps_counted", a.total); seen("inputs", hash_str(what) ^ mix((u64)t ^ a.total << 8)); }
static size_t unit() { return st().group == "large" ? 60000 : 8000; }
static int team_size(Rng& r) { return r.chance(1, 4) ? (int)r.range(2, 5) : r.chance(1, 3) ? (int)r.range(20, 48) : (int)r.range(6, 16); }
static void text(Rng& rng) {
    const Load& l = loads[rng.below(LOADS)]; unsigned k = (unsigned)rng.below(SHAPES); size_t n = unit(), q = rng.chance(1, 2) ? 4 : 3; int t = team_size(rng); u64 lb = rng.chance(1, 2) ? n / 4 : n; char b[160]; snprintf(b, sizeof b, "load %s shape '%s' %zu lines threads=%d", l.n, shapes[k], n, t); label(b);
    Rng a = rng; std::string f1 = new_file(shape(a, k, n, lb, l.kind), l.kind == 1 ? ".mtx" : l.kind == 3 ? ".graph" : ""); a = rng; std::string f2 = new_file(shape(a, k, n * q, lb * q, l.kind), l.kind == 1 ? ".mtx" : l.kind == 3 ? ".graph" : "");
    work::Sum one = count(1, [&] { l.f(f1); }), o2 = count(1, [&] { l.f(f2); }), m2 = count(t, [&] { l.f(f2); });
    H_CHECK(one.total > n, "harness", "only %llu steps counted", (unsigned long long)one.total);
    linear(one, o2, (double)q, b, 1); team(o2, m2, k < SPREAD && k != 6, b, t); if (k < SPREAD && &l - loads < SHARED_LOADS && l.f != ld_find) shared(o2, m2, b, t, [&] { l.f(f2); }); tally(b, t, m2);
}
H_GROUP(texts) { text(rng); }

// ---- objects ----
static const char* forms[] = {"uniform", "hot row", "one entry repeated", "empty rows", "sorted", "diagonal", "few rows"};
static Mat form(Rng& r, unsigned k, size_t n, u64 labels) {
    Mat m; m.n = m.nr = m.nc = labels; u64 hot = r.below(labels);
    for (size_t i = 0; i < n; ++i) { E3 e; e.x = k == 1 || k == 2 ? hot : k == 3 ? labels - 1 - r.below(labels / 50 + 1) : k == 4 ? i * labels / n : k == 6 ? r.below(5) : r.below(labels); e.y = k == 2 ? hot : k == 5 ? e.x : r.below(labels); e.w = wbits<float>((float)(r.below(64))); m.e.push_back(e); }
    return m;
}
template<bool WG> struct Objs {
    typedef pigo::COO<u32, u32, u32*, false, false, false, WG, float, float*> CC; typedef pigo::CSR<u32, u32, u32*, u32*, WG, float, float*> CR; typedef pigo::COO<u32, u32, std::vector<u32>, true, false, false, WG, float, std::vector<float>> CS; typedef pigo::COO<u32, u32, u32*, true, true, false, WG, float, float*> CU; typedef pigo::DiGraph<u32, u32, u32*, u32*, WG, float, float*> DG; typedef pigo::Matrix<u32, u32, u32*, u32*, WG, float, float*> MX;
    CC c; CR r; std::string out, coo, csr, dig;
    Objs(const Mat& m, bool files) : c((u32)m.n, (u32)m.nr, (u32)m.nc, (u32)m.e.size()) { fill_coo(c, m, WG); r = CR(c); out = tmp_name(); if (files) { coo = tmp_name(); csr = tmp_name(); dig = tmp_name(); c.save(coo); r.save(csr); DG d(c); d.save(dig); d.free(); } }
    ~Objs() { c.free(); r.free(); }
    // Sorting changes the object: it has one of its own.
    template<class X> static void keep(X& x) { x.free(); }
    void run(unsigned op) {
        switch (op) {
            case 0: { CR x(c); x.free(); break; }
            case 1: { CC x(r); x.free(); break; }
            case 2: { CS x(r); x.free(); break; }
            case 3: { CU x(r); x.free(); break; }
            case 4: { CR x(c); x.sort(); x.free(); break; }
            case 5: { auto x = r.template new_csr_without_dups<u32, u32, u32*, u32*, WG, float, float*>(); x.free(); break; }
            case 6: { CC x(c); x.transpose(); x.free(); break; }
            case 7: { CC x; x = c; x.free(); break; }
            case 8: { DG x(c); x.free(); break; }
            case 9: { MX x(c); x.free(); break; }
            case 10: c.save(out); break;
            case 11: r.save(out); break;
            case 12: c.write(out); break;
            case 13: { CC x(coo); x.free(); break; }
            case 14: { CR x(csr); x.free(); break; }
            case 15: { DG x(dig); x.free(); break; }
            case 16: { CC x(csr); x.free(); break; }
            default: { CR x(coo, pigo::PIGO_COO_BIN); x.free(); break; }
        }
    }
};
static const char* opn[] = {"coo to csr", "csr to coo", "csr to coo sym", "csr to coo sym ut", "sort", "dedup", "transpose", "assign", "digraph", "matrix", "save coo", "save csr", "write coo", "load coo", "load csr", "load digraph", "load csr as coo", "load coo as csr"};
static const unsigned OPS = sizeof opn / sizeof *opn;
template<bool WG> static void object(Rng& rng) {
    unsigned op = (unsigned)rng.below(OPS), k = (unsigned)rng.below(7); size_t n = unit() * 2, q = rng.chance(1, 2) ? 4 : 3; u64 lb = rng.chance(1, 3) ? n / 16 : rng.chance(1, 2) ? n : n * 2; int t = team_size(rng); char b[160]; snprintf(b, sizeof b, "%s%s of '%s' %zu entries %llu labels threads=%d", opn[op], WG ? " weighted" : "", forms[k], n, (unsigned long long)lb, t); label(b);
    Rng a = rng; Mat m1 = form(a, k, n, lb); a = rng; Mat m2 = form(a, k, n * q, lb * q); set_threads(4); Objs<WG> x(m1, op > 12), y(m2, op > 12);
    work::Sum one = count(1, [&] { x.run(op); }), o2 = count(1, [&] { y.run(op); }), t2 = count(t, [&] { y.run(op); });
    H_CHECK(one.total > n / 16, "harness", "only %llu steps counted", (unsigned long long)one.total);
    linear(one, o2, (double)q, b, 1); team(o2, t2, true, b, t); if (op >= 12 && op <= 14) shared(o2, t2, b, t, [&] { y.run(op); }); tally(b, t, t2);
    // Preparing the offsets may be serial: the conversion is judged with few labels, and on much data, since its loops may be scheduled in any way.
    if (op == 0 && k != 1 && k != 2 && lb == n / 16) { Mat m3 = form(a, k, 1600000, 16000); set_threads(4); Objs<WG> z(m3, false); auto f = [&] { z.run(op); }; work::Sum o3 = count(1, f), t3 = count(t, f); team(o3, t3, true, b, t); shared(o3, t3, b, t, f); tally(b, t, t3); }
}
H_GROUP(objects) { if (rng.chance(1, 2)) object<true>(rng); else object<false>(rng); }
H_GROUP(tensors) {
    size_t n = unit() * 2, q = 4; unsigned op = (unsigned)rng.below(4); u32 od = (u32)rng.range(1, 5); int t = team_size(rng); static const char* on[] = {"copy", "write", "save and load", "maxima"}; char b[120]; snprintf(b, sizeof b, "tensor %s order %u %zu entries threads=%d", on[op], od, n, t); label(b);
    auto mk = [&](size_t m) { T x(od, (u32)m); for (size_t i = 0; i < m * od; ++i) x.c()[i] = (u32)rng.below(1000); for (size_t i = 0; i < m; ++i) x.w()[i] = (float)i; return x; }; T x = mk(n), y = mk(n * q); std::string f = tmp_name();
    auto run = [&](T& z) { switch (op) { case 0: { T k(z); k.free(); break; } case 1: z.write(f); break; case 2: { z.save(f); T k(f); k.free(); break; } default: { auto v = z.max_labels(); (void)v; } } };
    work::Sum one = count(1, [&] { run(x); }), o2 = count(1, [&] { run(y); }), t2 = count(t, [&] { run(y); });
    linear(one, o2, (double)q, b, 1); team(o2, t2, true, b, t); if (op == 1) shared(o2, t2, b, t, [&] { run(y); }); tally(b, t, t2); x.free(); y.free();
}
// Blocks and searches through a handle.
H_GROUP(blocks) {
    size_t n = st().group == "large" ? 8000000 : 2000000; unsigned op = (unsigned)rng.below(3); int t = team_size(rng); static const char* on[] = {"parallel read", "parallel write", "find"}; char b[120]; snprintf(b, sizeof b, "%s of %zu bytes threads=%d", on[op], n, t); label(b); char ch = "x\n"[rng.below(2)];
    std::string s(n * 3, 'x'); if (rng.chance(1, 2)) for (size_t i = 0; i < s.size(); i += 7) s[i] = '\n'; std::string f1 = new_file(s.substr(0, n)), f2 = new_file(s), out = tmp_name();
    auto run = [&](const std::string& f, size_t k) { if (op == 0) { pigo::ROFile r(f); r.parallel_read(&s[0], k); } else if (op == 1) { pigo::WFile w(out, k); w.parallel_write(&s[0], k); } else { pigo::ROFile r(f); pigo::FileReader q = r.reader(); pigo::Tensor<u64, u64> x = q.find_offsets<pigo::Tensor<u64, u64>>(ch); x.free(); } };
    work::Sum one = count(1, [&] { run(f1, n); }), o2 = count(1, [&] { run(f2, n * 3); }), t2 = count(t, [&] { run(f2, n * 3); });
    linear(one, o2, 3, b, 1); team(o2, t2, true, b, t); shared(o2, t2, b, t, [&] { run(f2, n * 3); }); tally(b, t, t2);
}
