// C25: library calls from several application threads, and from inside the application's
// own parallel regions, give what they give alone.
#include "h.hpp"
#include "combos.hpp"
#include <atomic>
#include <thread>
using namespace h;

static std::vector<ops::Combo>& all() { static std::vector<ops::Combo> cs = ops::combos(); return cs; }
static std::string own_dir(int i) { std::string d = st().scratch + "/t" + std::to_string(i); mkdir(d.c_str(), 0755); return d; }
// Team sizes: 0 leaves the setting of the calling thread alone.
struct Teams { Rng r; int hi; Teams(u64 s, int u) : r(s), hi(u) {} static void step(void* p, unsigned) { Teams& x = *(Teams*)p; if (x.hi) set_threads((int)x.r.range(1, x.hi)); } };
struct Work { const ops::Combo* c; unsigned k; u64 seed; int wk; u64 ml; size_t mm; ops::Log ref, got; std::string what() const { return std::string(ops::group_name(k)) + " types " + c->name + " seed " + std::to_string(seed); } };
static ops::Log run(const Work& w, const std::string& dir, int hi) { ops::Env e(w.seed, w.ml, w.mm, w.wk, dir); Teams t(mix(w.seed), hi); e.step = Teams::step; e.arg = &t; return w.c->fn(e, w.k); }
static std::vector<Work> make(Rng& r, size_t n, bool alike) {
    std::vector<Work> v; u64 ml = r.chance(1, 2) ? 60 : 2000; size_t mm = r.chance(1, 3) ? 12 : r.chance(1, 2) ? 50 : 600;
    for (size_t i = 0; i < n; ++i) { Work w; w.c = &all()[r.below(all().size())]; w.k = (unsigned)r.below(14); if (alike && i) { w.c = v[0].c; w.k = v[0].k; } w.seed = r.next(); w.wk = (int)r.below(w.c->wk + 1); w.ml = std::min(ml, ops::class_labels(w.c->cls)); w.mm = std::min(mm, ops::class_entries(w.c->cls)); v.push_back(w); }
    return v;
}
static void alone(std::vector<Work>& v) { for (auto& w : v) { set_threads(3); w.ref = run(w, own_dir(0), 3); H_CHECK(!w.ref.empty(), "nothing", "no observations"); for (auto& x : w.ref) H_CHECK(x.first.compare(0, 10, "exception:") != 0, "exception", "%s: %s", w.what().c_str(), x.first.c_str()); } }
static void compare(std::vector<Work>& v, const char* how) { for (auto& w : v) { std::string d = ops::diff(w.ref, w.got); H_CHECK(d.empty(), "differs", "%s: %s is not as when run alone: %s", how, w.what().c_str(), d.c_str()); stat("comparisons", w.got.size()); stat(std::string("op_") + ops::group_name(w.k)); seen("inputs", mix(w.seed ^ w.k)); } stat("evaluations"); }
static std::string describe(const std::vector<Work>& v, const std::string& how) { std::string s = how; for (auto& w : v) s += "; " + w.what(); return s; }

// Application threads with their own objects and files.
H_GROUP(threads) {
    size_t n = rng.range(2, 5); bool alike = rng.chance(1, 2); size_t each = rng.range(1, 3); std::vector<Work> v = make(rng, n * each, alike); int hi = rng.chance(1, 3) ? 1 : (int)rng.range(2, 4); label(describe(v, std::to_string(n) + " threads, teams up to " + std::to_string(hi))); alone(v);
    std::atomic<int> ready{0}; std::vector<std::thread> t;
    for (size_t i = 0; i < n; ++i) { std::string d = own_dir((int)i + 1); t.emplace_back([&, i, d]() { ++ready; while (ready.load() < (int)n) std::this_thread::yield(); for (size_t k = 0; k < each; ++k) v[i * each + k].got = run(v[i * each + k], d, hi); }); }
    for (auto& x : t) x.join();
    compare(v, "application threads"); stat_max("application_threads", n);
}
// Inside the application's own regions: one level (inner teams of one thread) or nested.
static void region(Rng& r, bool vary) {
    size_t n = r.range(1, 6); std::vector<Work> v = make(r, n, r.chance(1, 2)); int outer = (int)r.range(1, 4), levels = (int)r.range(1, 3), hi = (int)r.range(1, 5), form = (int)r.below(7); if (form == 3 || (form > 3 && r.chance(2, 3))) levels = std::max(levels, 2);
    label(describe(v, "outer " + std::to_string(outer) + " levels " + std::to_string(levels) + " teams up to " + std::to_string(hi) + " form " + std::to_string(form))); alone(v); std::vector<std::string> d; for (size_t i = 0; i < n; ++i) d.push_back(own_dir((int)i + 1));
    int before = omp_get_max_active_levels(); omp_set_max_active_levels(levels); if (vary && rt_vary) rt_vary(1); set_threads(outer); int bad = 0;
    #define ONE(i) do { try { v[i].got = run(v[i], d[i], hi); } catch (...) { _Pragma("omp atomic") ++bad; } } while (0)
    if (form == 0) {
        #pragma omp parallel for schedule(dynamic, 1)
        for (size_t i = 0; i < n; ++i) ONE(i);
    } else if (form == 1) {
        #pragma omp parallel num_threads(outer)
        { for (size_t i = (size_t)omp_get_thread_num(); i < n; i += (size_t)omp_get_num_threads()) ONE(i); }
    } else if (form == 2) {
        #pragma omp parallel
        {
            #pragma omp single
            for (size_t i = 0; i < n; ++i) ONE(i);
        }
    } else if (form == 4) {     // one at a time, inside the application's own critical section
        #pragma omp parallel for schedule(dynamic, 1)
        for (size_t i = 0; i < n; ++i) {
            #pragma omp critical
            ONE(i);
        }
    } else if (form == 5) {     // as tasks
        #pragma omp parallel
        {
            #pragma omp single
            for (size_t i = 0; i < n; ++i) {
                #pragma omp task firstprivate(i)
                ONE(i);
            }
        }
    } else if (form == 6) {     // in order
        #pragma omp parallel for ordered schedule(dynamic, 1)
        for (size_t i = 0; i < n; ++i) {
            #pragma omp ordered
            ONE(i);
        }
    } else {
        #pragma omp parallel for schedule(static, 1) num_threads(2)
        for (size_t q = 0; q < 2; ++q) {
            size_t lo = n * q / 2, to = n * (q + 1) / 2;
            #pragma omp parallel for schedule(dynamic, 1) num_threads(2)
            for (size_t i = lo; i < to; ++i) ONE(i);
        }
    }
    if (rt_vary) rt_vary(0); omp_set_max_active_levels(before); set_threads(3);
    H_CHECK(!bad, "exception", "%d calls raised", bad); compare(v, "inside a region"); stat_max("outer_threads", (u64)outer); stat("form_" + std::to_string(form)); stat("levels_" + std::to_string(levels));
    if (rt_schedule_hash) seen("schedules", rt_schedule_hash());
}
H_GROUP(region) { region(rng, false); }
H_GROUP(limited) { region(rng, true); }

// Several threads read, copy, convert, save and write the same objects.
template<class C> u64 sum_coo(C& c) { return ops::dig_coo<true>(c); }
template<int K> void shared(Rng& r) {
    typedef Store<u32, K> S; typedef Store<float, K> WS; typedef pigo::COO<u32, u32, S, false, false, false, true, float, WS> C; typedef pigo::CSR<u32, u32, S, S, true, float, WS> R; typedef pigo::DiGraph<u32, u32, S, S, true, float, WS> D; typedef pigo::Matrix<u32, u32, S, S, true, float, WS> M; typedef pigo::Tensor<u32, u32, S, float, WS, true> T; typedef pigo::BaseGraph<u32, u32, S, S, true, float, WS> G;
    typedef pigo::COO<u64, u64, u64*, true, false, false, true, double, double*> C2; typedef pigo::CSR<u64, u32, std::vector<u64>, std::vector<u32>, true, double, std::vector<double>> R2;
    size_t m = r.chance(1, 3) ? r.below(20) : r.below(800); u32 n = 1 + (u32)r.below(r.chance(1, 2) ? 10 : 500); u32 nc = 1 + (u32)r.below(n); C c(n, n, nc, (u32)m); for (size_t i = 0; i < m; ++i) { raw(c.x())[i] = (u32)r.below(n); raw(c.y())[i] = (u32)r.below(nc); raw(c.w())[i] = (float)(r.below(400)) / 4; }
    R x(c); x.sort(); G g(c); g.sort(); u32 order = (u32)r.range(1, 4), tm = 1 + (u32)r.below(300); T t(order, tm); for (size_t i = 0; i < (size_t)tm * order; ++i) raw(t.c())[i] = (u32)r.below(1000); for (size_t i = 0; i < tm; ++i) raw(t.w())[i] = (float)r.below(50) / 2;
    std::string el = tmp_name(), bin = tmp_name(), gr = tmp_name(".graph"); if (m) c.write(el); c.save(bin); { std::string s = "3 4\n1 2\n0\n2\n"; put_file(gr, s); }
    set_threads(2); std::string base = own_dir(99);
    std::function<u64(unsigned, const std::string&)> ops_[] = {
        [&](unsigned, const std::string&) { return sum_coo(c); },
        [&](unsigned, const std::string&) { C k(c); u64 h = sum_coo(k); k.transpose(); k.free(); return h; },
        [&](unsigned, const std::string&) { R k(c); u64 h = ops::dig_csr<true>(k, true); k.free(); return h; },
        [&](unsigned, const std::string&) { R2 k(c); u64 h = ops::dig_csr<true>(k, true); k.free(); return h; },
        [&](unsigned, const std::string&) { C k(x); u64 h = ops::dig_coo<true>(k); k.free(); return h; },
        [&](unsigned, const std::string&) { C2 k(x); u64 h = ops::dig_coo<true>(k); k.free(); return h; },
        [&](unsigned, const std::string& f) { c.save(f); std::string s = get_file(f); return hash_str(s); },
        [&](unsigned, const std::string& f) { if (!m) return (u64)0; c.write(f); std::string s = get_file(f); return hash_str(s); },
        [&](unsigned, const std::string& f) { x.save(f); std::string s = get_file(f); return hash_str(s); },
        [&](unsigned, const std::string& f) { t.save(f); std::string s = get_file(f); return hash_str(s); },
        [&](unsigned, const std::string& f) { t.write(f); std::string s = get_file(f); return hash_str(s); },
        [&](unsigned, const std::string&) { std::vector<u32> v = t.max_labels(); return hash_bytes(v.data(), v.size() * 4); },
        [&](unsigned, const std::string&) { T k(t); u64 h = ops::dig_ten<true>(k); k.free(); return h; },
        [&](unsigned, const std::string&) { D k(c); u64 h = ops::dig_csr<true>(k.out(), true) ^ ops::dig_csr<true>(k.in(), true); k.free(); return h; },
        [&](unsigned, const std::string&) { M k(c); u64 h = ops::dig_csr<true>(k.csr(), true) ^ ops::dig_csr<true>(k.csc(), true); k.free(); return h; },
        [&](unsigned, const std::string&) { u64 h = 0; for (u32 v = 0; v < (u32)g.n(); ++v) { for (u32 y : g.neighbors(v)) h = mix(h ^ y); h = mix(h ^ g.degree(v)); } return h; },
        [&](unsigned, const std::string&) { C k(bin); u64 h = sum_coo(k); k.free(); return h; },
        [&](unsigned, const std::string&) { if (!m) return (u64)0; C k(el); u64 h = sum_coo(k); k.free(); return h; },
        [&](unsigned, const std::string&) { pigo::CSR<> k(gr); u64 h = ops::dig_csr<false>(k); k.free(); return h; },
        [&](unsigned, const std::string&) { pigo::ROFile f(bin); u64 h = f.size(); h = h * 3 + (u64)f.guess_file_type(); return mix(h ^ f.read<u64>()); },
    };
    const unsigned NOPS = sizeof ops_ / sizeof *ops_; static const char* names[] = {"read", "copy", "compress", "compress-other", "expand", "expand-sym", "save", "write", "save-csr", "save-tensor", "write-tensor", "max_labels", "copy-tensor", "digraph", "matrix", "iterate", "load-bin", "load-text", "load-graph", "handle"};
    std::vector<u64> ref; for (unsigned k = 0; k < NOPS; ++k) ref.push_back(ops_[k](k, base + "/f"));
    size_t th = r.range(2, 5), each = r.range(2, 6); bool app = r.chance(1, 2); int hi = (int)r.range(1, 4); std::vector<std::vector<unsigned>> plan(th); unsigned same = (unsigned)r.below(NOPS); std::string s = "shared object n=" + std::to_string(n) + " m=" + std::to_string(m) + (app ? " threads" : " region") + " teams " + std::to_string(hi) + ":";
    bool alike = r.chance(1, 2); u64 ih = 0; for (auto& p : plan) { s += " ["; for (size_t i = 0; i < each; ++i) { p.push_back(alike && i == 0 ? same : (unsigned)r.below(NOPS)); s += std::string(i ? " " : "") + names[p.back()]; stat(std::string("shared_") + names[p.back()]); ih = mix(ih ^ p.back()); } s += "]"; } label(s);
    std::vector<std::vector<u64>> got(th, std::vector<u64>(each)); std::vector<std::string> dirs; for (size_t i = 0; i < th; ++i) dirs.push_back(own_dir((int)i + 1));
    std::atomic<int> bad{0};
    auto body = [&](size_t i) { set_threads(hi); try { for (size_t k = 0; k < each; ++k) got[i][k] = ops_[plan[i][k]](plan[i][k], dirs[i] + "/s"); } catch (...) { ++bad; } };
    if (app) { std::vector<std::thread> t; std::atomic<int> ready{0}; for (size_t i = 0; i < th; ++i) t.emplace_back([&, i]() { ++ready; while (ready.load() < (int)th) std::this_thread::yield(); body(i); }); for (auto& q : t) q.join(); }
    else { omp_set_max_active_levels((int)r.range(1, 2));
        #pragma omp parallel for schedule(static, 1) num_threads(th)
        for (size_t i = 0; i < th; ++i) body(i);
        omp_set_max_active_levels(1); }
    H_CHECK(!bad.load(), "exception", "%d threads raised", bad.load());
    for (size_t i = 0; i < th; ++i) for (size_t k = 0; k < each; ++k) { H_CHECK(got[i][k] == ref[plan[i][k]], "differs", "thread %zu: %s is not as when run alone", i, names[plan[i][k]]); stat("comparisons"); }
    for (unsigned k = 0; k < NOPS; ++k) H_CHECK(ops_[k](k, base + "/g") == ref[k], "changed", "%s differs afterwards", names[k]);
    c.free(); x.free(); g.free(); t.free(); stat("evaluations"); seen("inputs", mix(ih ^ m * 1000 + n));
}
H_GROUP(shared) { switch (rng.below(3)) { case 0: shared<0>(rng); break; case 1: shared<1>(rng); break; default: shared<2>(rng); } }
