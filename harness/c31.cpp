// C31: the memory an operation takes is bounded by the data it handles, whatever the team.
#define MEM_ACCOUNT 1
#include "mem.hpp"
#define R_ENTRIES 120000
#define R_LABELS 30000
#define R_TENSOR 60000
#define R_ROWS 40000
#define R_WIDE 240000
#define R_PAUSE mem::Pause pause_
#include "routes2.hpp"
static const RT& pick_route() { size_t i = st().cur % (NR + NM); return i < NR ? routes[i] : more[i - NR]; }
H_GROUP(peak) {
    built(); hot(); plain(); broad(); digr(); Env env = setup_env(); Env* e = &env;
    const RT& rt = pick_route(); size_t turn = st().cur / (NR + NM); int t = turn % 3 == 2 ? (int)rng.range(24, 40) : turn % 3 == 1 ? pick_threads(rng) : rng.chance(1, 2) ? 1 : (int)rng.range(8, 16); set_threads(t); char lb[100]; snprintf(lb, sizeof lb, "route %s threads=%d", rt.n, t); label(lb);
    long first = mem::live; rt.f(*e, rng); first = mem::live - first; H_CHECK(first <= (64l << 10) + 1024l * t, "stays-behind", "%s with %d threads leaves %ld bytes behind", rt.n, t, first);      // small things may be set up once and kept
    Rng again = rng; long left[2];
    for (int round = 0; round < 2; ++round) {
        rng = again; long before = mem::live; mem::start(-1, false); rt.f(*e, rng); mem::stop(); left[round] = mem::live - before; long peak = mem::peak - before, result = mem::result - before, extra = peak - result; if (extra < 0) extra = 0;
        long data = 12l * R_ENTRIES + result, bound = 2 * data + (256l << 10) + (8l << 10) * t;
        H_CHECK(extra <= bound, "memory", "%s with %d threads takes %ld bytes beyond its result of %ld bytes, for data of %ld bytes", rt.n, t, extra, result, 12l * R_ENTRIES);
        stat("evaluations"); stat("bytes_watched", peak); seen("peaks_percent", (u64)(extra * 100 / data)); seen("inputs", hash_str(rt.n) ^ mix(t));
    }
    H_CHECK(std::min(left[0], left[1]) <= 4096, "stays-behind", "%s leaves %ld bytes behind every time", rt.n, left[1]);
}
