// C30: running out of memory surfaces as an exception; nothing is terminated or half done.
#include "mem.hpp"
#define R_ENTRIES 4000
#define R_LABELS 900
#define R_TENSOR 1500
#define R_ROWS 1500
#define R_PAUSE mem::Pause pause_
#include "routes2.hpp"

// Text of a message is not allocated by the library for the caller: any standard exception will do.
static bool critical;     // whether the application is in a critical section of its own
static std::string attempt(const RT& rt, Env& e, Rng& r, const char* what, long k, bool sticky) {
    struct On { On(long k, bool s) { mem::start(k, s); } ~On() { mem::stop(); } } on(k, sticky);
    try {
        std::string out; std::exception_ptr raised;
        if (!critical) return rt.f(e, r);
        #pragma omp critical
        { try { out = rt.f(e, r); } catch (...) { raised = std::current_exception(); } }
        if (raised) std::rethrow_exception(raised);
        return out;
    } catch (CaseFail&) { throw; } catch (std::exception&) { return "error"; } catch (...) { mem::stop(); fail("foreign-exception", "%s: not a standard exception", what); } }
static void each_request(Rng& r, const RT& rt, bool sticky) {
    built(); hot(); plain(); broad(); digr(); Env e = setup_env(); int t = pick_threads(r); guard::reset(); guard::Scope gs; set_threads(t); guard::fail_at(-1, 0); critical = r.chance(1, 3); if (critical) stat("in_a_critical_section");
    char lb[128]; snprintf(lb, sizeof lb, "route %s threads=%d%s", rt.n, t, sticky ? " no more memory" : ""); label(lb); Before b; std::string good = attempt(rt, e, r, "no fault", -1, false); long n = mem::count; H_CHECK(good != "error", "baseline", "%s fails with memory", rt.n); clean(b, "no fault"); stat("requests_seen", n);
    for (long k = 0; k < n; k += n > 1500 && k > 20 && k < n - 20 ? 1 + (long)r.below((u64)n / 30) : 1) {
        char w[160]; snprintf(w, sizeof w, "%s with request %ld of %ld refused%s", rt.n, k, n, sticky ? " and all later ones" : ""); label(std::string(lb) + ": " + w);
        std::string got = attempt(rt, e, r, w, k, sticky); bool hit = mem::hit; if (hit) stat("requests_refused");
        H_CHECK(got == "error" || got == good, "wrong-result", "%s: an incomplete result was returned", w); if (got == "error") stat("exceptions"); else stat("completed_nevertheless"); H_CHECK(hit || got == good, "baseline", "%s fails with memory", rt.n);
        clean(b, w); seen("inputs", hash_str(rt.n) ^ mix(k * 64 + t) ^ mix(sticky)); stat("evaluations");
        std::string after = attempt(rt, e, r, "afterwards", -1, false); H_CHECK(after == good, "afterwards", "%s: the next use %s", w, after == "error" ? "fails" : "gives another result"); clean(b, "afterwards");
    }
}
static const RT& pick_route() { size_t i = st().cur % (NR + NM); return i < NR ? routes[i] : more[i - NR]; }
H_GROUP(each) { each_request(rng, pick_route(), false); }
H_GROUP(sticky) { each_request(rng, pick_route(), true); }
// Objects too large for any memory: refused, whatever the arithmetic on their sizes gives.
typedef unsigned __int128 W;
template<class X> static void hold(X& x) { asm volatile("" : : "r"(&x) : "memory"); }     // its memory has to be taken
template<class M> static void too_large(const char* what, W bytes, u64 a, u64 b, M make) {
    char w[160]; snprintf(w, sizeof w, "%s with sizes %llu and %llu", what, (unsigned long long)a, (unsigned long long)b); label(w); if (bytes < (W)1 << 48) { stat("sizes_small"); return; }
    try { make(); } catch (CaseFail&) { throw; } catch (std::exception&) { stat("sizes_refused"); stat("evaluations"); seen("inputs", hash_str(w)); return; } catch (...) { fail("foreign-exception", "%s: not a standard exception", w); }
    fail("unbacked", "%s: made, although it takes more than 2^%d bytes", w, [&] { int k = 0; for (W q = bytes; q >>= 1;) ++k; return k; }());
}
H_GROUP(sizes) {
    auto pick = [&](u64 unit) { u64 d = rng.below(5); switch (rng.below(6)) { case 0: return (u64)0 - 1 - d; case 1: return ((u64)0 - 1) / unit + 1 + d; case 2: return ((u64)0 - 1) / unit - d; case 3: return ((u64)1 << rng.range(46, 63)) + d; case 4: return ((u64)1 << 63) / unit * 2 / rng.range(1, 4) + d; default: return rng.next() >> rng.below(17); } };
    u64 m = pick((u64)1 << rng.below(4)), n = rng.below(50); W M = m, N = n; auto B = [](W b) { return b; };
    switch (rng.below(12)) {
        case 0: return too_large("COO u32*", B(M * 8), m, n, [&] { pigo::COO<u32, u64, u32*> c((u32)n, (u32)n, (u32)n, m); hold(c); });
        case 1: return too_large("COO u64*", B(M * 16), m, n, [&] { pigo::COO<u64, u64, u64*> c(n, n, n, m); hold(c); });
        case 2: return too_large("COO vector", B(M * 8), m, n, [&] { pigo::COO<u32, u64, std::vector<u32>> c((u32)n, (u32)n, (u32)n, m); hold(c); });
        case 3: return too_large("COO shared", B(M * 4), m, n, [&] { pigo::COO<u16, u64, std::shared_ptr<u16>> c((u16)n, (u16)n, (u16)n, m); hold(c); });
        case 4: return too_large("COO u8* double*", B(M * 10), m, n, [&] { pigo::COO<u8, u64, u8*, false, false, false, true, double, double*> c((u8)n, (u8)n, (u8)n, m); hold(c); });
        case 5: return too_large("CSR u32* u64*", B(M * 4 + N * 8), m, n, [&] { pigo::CSR<u32, u64, u32*, u64*> c((u32)n, m, (u32)n, (u32)n); hold(c); });
        case 6: return too_large("CSR rows u64*", B(M * 8 + N * 8), m, n, [&] { pigo::CSR<u64, u64, u64*, u64*> c(m, n, m, n); hold(c); });
        case 7: return too_large("CSR rows u16*", B(M * 2 + N * 8), m, n, [&] { pigo::CSR<u64, u16, u64*, u16*> c(m, (u16)n, m, n); hold(c); });
        case 8: return too_large("CSR vector", B(M * 4 + N * 8), m, n, [&] { pigo::CSR<u32, u64, std::vector<u32>, std::vector<u64>> c((u32)n, m, (u32)n, (u32)n); hold(c); });
        case 9: { u64 o = rng.chance(1, 2) ? (u64)1 << rng.range(1, 62) : rng.range(1, 100), k = rng.chance(1, 2) ? ((u64)0 - 1) / o + 1 + rng.below(3) : pick(8); return too_large("Tensor u64*", (W)o * k * 8, k, o, [&] { pigo::Tensor<u64, u64, u64*, float, float*, false> t(o, k); hold(t); }); }
        case 10: { u64 o = rng.chance(1, 2) ? (u64)1 << rng.range(33, 62) : rng.range(1, 100), k = rng.chance(1, 2) ? ((u64)0 - 1) / o + 1 + rng.below(3) : pick(4); return too_large("Tensor u32 vector", (W)o * k * 4, k, o, [&] { pigo::Tensor<u32, u64, std::vector<u32>, float, std::vector<float>, false> t(o, k); hold(t); }); }
        default: { u64 o = (u64)1 << rng.range(1, 62), k = ((u64)0 - 1) / o + 1 + rng.below(3); return too_large("Tensor u8* weighted", (W)o * k + (W)k * 8, k, o, [&] { pigo::Tensor<u8, u64, u8*, double, double*, true> t(o, k); hold(t); }); }
    }
}
