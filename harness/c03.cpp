// C03: the shared workload under ThreadSanitizer, whose reports are the oracle here.
#include "h.hpp"
#include "combos.hpp"
using namespace h;

struct Teams { Rng r; int lo, hi; Teams(u64 s, int l, int u) : r(s), lo(l), hi(u) {} static void step(void* p, unsigned) { Teams& x = *(Teams*)p; set_threads((int)x.r.range(x.lo, x.hi)); } };
static void go(Rng& r, u64 ml, size_t mm, int lo, int hi) {
    static std::vector<ops::Combo> cs = ops::combos(); const ops::Combo& c = cs[r.below(cs.size())]; unsigned k = (unsigned)r.below(14); u64 seed = r.next(); int wk = (int)r.below(c.wk + 1); if (c.cls < 2) { ml = std::min(ml, ops::class_labels(c.cls)); mm = std::min(mm, ops::class_entries(c.cls)); }
    ops::Env e(seed, ml, mm, wk, st().scratch); Teams tm(mix(seed), lo, hi); e.step = Teams::step; e.arg = &tm;
    label(std::string(ops::group_name(k)) + " types " + c.name + " seed " + std::to_string(seed) + " threads " + std::to_string(lo) + ".." + std::to_string(hi) + " labels " + std::to_string(ml) + " entries " + std::to_string(mm));
    ops::Log l = c.fn(e, k); H_CHECK(!l.empty(), "nothing", "no observations"); stat(std::string("op_") + ops::group_name(k)); stat("steps", l.size()); stat("evaluations"); seen("inputs", mix(seed ^ k)); seen("combo_op", mix(c.id * 100 + k));
}
H_GROUP(small) { go(rng, rng.chance(1, 2) ? 12 : 60, rng.chance(1, 2) ? 12 : 50, 2, 8); }      // few entries per thread
H_GROUP(medium) { go(rng, rng.chance(1, 2) ? 5 : 3000, 1200, 2, 8); }                          // many entries per row, or many rows
H_GROUP(wide) { go(rng, rng.chance(1, 2) ? 30 : 300, 300, 9, 24); }                            // more threads than cores
H_GROUP(large) { go(rng, 40000, 9000, 4, 8); }
