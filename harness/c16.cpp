// C16: the same observations for every storage kind and for all sufficiently wide types.
#include "h.hpp"
#include "combos.hpp"
using namespace h;

static void run(Rng& r, int cls, size_t entries, u64 labels) {
    static std::vector<ops::Combo> all = ops::combos(); bool wg = r.chance(1, 2); int wk = (int)r.below(3); unsigned k = (unsigned)r.below(14); u64 seed = r.next();
    if (k == 3 && wg) wg = r.chance(1, 8);                    // weighted adjacency files are only refused
    std::map<std::string, std::pair<u64, const char*>> by; ops::Log ref; const char* refn = nullptr; int t = pick_threads(r); size_t used = 0; static int team; team = t;
    for (auto& c : all) {
        if (c.wg != wg || c.cls < cls || (wg && c.wk < wk)) continue;
        ops::Env e(seed, labels, entries, wk, st().scratch); e.step = [](void*, unsigned) { set_threads(team); };
        label(std::string(ops::group_name(k)) + " types " + c.name + (refn ? std::string(" against ") + refn : std::string()) + " seed " + std::to_string(seed) + " threads " + std::to_string(t));
        ops::Log l = c.fn(e, k); ++used; stat(std::string("combo_") + c.name); seen("combo_op", mix(c.id * 100 + k));
        for (auto& x : l) {
            H_CHECK(x.first.compare(0, 10, "exception:") != 0, "exception", "%s", x.first.c_str());
            auto it = by.find(x.first); if (it == by.end()) by[x.first] = {x.second, c.name}; else H_CHECK(it->second.first == x.second, "differs", "%s is not as with %s", x.first.c_str(), it->second.second); stat("comparisons");
        }
        if (!refn) { ref = l; refn = c.name; } else { std::string d = ops::diff(ref, l); H_CHECK(d.empty(), "differs", "from %s: %s", refn, d.c_str()); }
    }
    stat(std::string("op_") + ops::group_name(k)); stat("evaluations"); if (used > 1) seen("inputs", mix(seed ^ k)); stat_max("combos_compared", used);
}
H_GROUP(small) { run(rng, 0, 50, 60); }
H_GROUP(medium) { run(rng, 1, 1200, rng.chance(1, 2) ? 20000 : 300); }
H_GROUP(wide) { run(rng, 2, 5000, rng.chance(1, 2) ? 100000 : 1000); }
