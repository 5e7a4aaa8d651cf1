// C02: the same observations for every team size and schedule.
#include "h.hpp"
#include "combos.hpp"
using namespace h;

struct Teams { Rng r; bool mixed; int t; Teams(u64 s) : r(s), mixed(false), t(1) {} static void step(void* p, unsigned) { Teams& x = *(Teams*)p; set_threads(x.mixed ? pick_threads(x.r) : x.t); } };
static ops::Env env(u64 seed, u64 ml, size_t mm, int wk) { return ops::Env(seed, ml, mm, wk, st().scratch); }
// Reference with one thread, then with the given teams.
static void compare(Rng& r, u64 ml, size_t mm, const std::vector<int>& teams, int mixed, int repeat) {
    static std::vector<ops::Combo> cs = ops::combos(); const ops::Combo& c = cs[r.below(cs.size())]; unsigned k = (unsigned)r.below(14); u64 seed = r.next(); int wk = (int)r.below(c.wk + 1);
    ops::Env e = env(seed, ml, mm, wk); Teams tm(mix(seed)); e.step = Teams::step; e.arg = &tm; tm.t = 1; label(std::string(ops::group_name(k)) + " types " + c.name + " seed " + std::to_string(seed) + " one thread");
    ops::Log ref = c.fn(e, k); stat(std::string("op_") + ops::group_name(k)); stat("steps", ref.size());
    H_CHECK(!ref.empty(), "nothing", "no observations");
    for (auto& x : ref) H_CHECK(x.first.compare(0, 10, "exception:") != 0, "exception", "%s", x.first.c_str());
    for (int i = 0; i < (int)teams.size() * repeat + mixed; ++i) {
        ops::Env f = env(seed, ml, mm, wk); f.step = Teams::step; f.arg = &tm; tm.mixed = i >= (int)teams.size() * repeat; tm.t = tm.mixed ? 0 : teams[i % teams.size()]; if (rt_seed) rt_seed(mix(seed + i));
        label(std::string(ops::group_name(k)) + " types " + c.name + " seed " + std::to_string(seed) + " threads " + std::to_string(tm.t));
        ops::Log got = c.fn(f, k); std::string d = ops::diff(ref, got); H_CHECK(d.empty(), "differs", "from one thread: %s", d.c_str());
        if (rt_schedule_hash) seen("schedules", rt_schedule_hash());
        stat("comparisons", got.size()); stat("evaluations"); seen("inputs", mix(seed ^ (u64)(tm.t * 64 + k) ^ (u64)tm.mixed << 50)); seen("team_sizes", (u64)tm.t);
    }
}
static std::vector<int> some(Rng& r, int n) { std::vector<int> v; for (int i = 0; i < n; ++i) v.push_back(std::max(2, pick_threads(r))); return v; }
H_GROUP(teams) { u64 ml = rng.chance(1, 2) ? 60 : 3000; compare(rng, ml, rng.chance(1, 2) ? 50 : 1200, some(rng, 3), 1, 1); }
H_GROUP(every) { std::vector<int> v; for (int i = 2; i <= 33; ++i) v.push_back(i); compare(rng, rng.chance(1, 2) ? 12 : 200, rng.range(1, 120), v, 2, 1); }
H_GROUP(large) { compare(rng, 100000, 60000, some(rng, 3), 1, 1); }
H_GROUP(schedules) { compare(rng, rng.chance(1, 2) ? 12 : 60, rng.chance(1, 2) ? 12 : 50, some(rng, 2), 0, 4); }
