#include "combos.hpp"
namespace ops {
#define COMBO_CAT2(a, b) a##b
#define COMBO_CAT(a, b) COMBO_CAT2(a, b)
#define X(n, L, O, K, W, WG, c, wk) template<int N> struct Pick##n {}; template<> struct Pick##n<n> { static Log go(Env& e, unsigned k) { return run_one<L, O, K, W, WG>(e, k); } };
OPS_COMBOS
#undef X
Log COMBO_CAT(combo, COMBO)(Env& e, unsigned k) { return COMBO_CAT(Pick, COMBO)<COMBO>::go(e, k); }
}
