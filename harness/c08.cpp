// C08: load-time symmetrise, triangle and self-loop options are exact.
#include "obj.hpp"
#include "guard.hpp"
using namespace h;

template<class L, class O, int K, bool S, bool U, bool X, bool WG, class W> void one(Rng& r, bool cuts, size_t cap = 6000) {
    typedef pigo::COO<L, O, Store<L, K>, S, U, X, WG, W, Store<W, K>> C;
    u64 mc = std::min<u64>((u64)std::numeric_limits<O>::max() / 2 - 1, cap); size_t n = cuts ? r.range(1, 5) : pick_count(r, mc);
    auto v = gen_ents<W>(r, n, cuts ? 300 : max_label<L>(), cuts ? 300 : max_label<L>(), true, WG);
    // runs of entries the options drop or mirror, also at the very end and around likely cuts
    switch (r.below(6)) {
        case 0: for (size_t i = n / 2; i < n; ++i) v[i].y = v[i].x; break;
        case 1: for (auto& e : v) if (r.chance(2, 3)) e.y = e.x; break;
        case 2: for (auto& e : v) if (e.x < e.y) std::swap(e.x, e.y); break;
        case 3: for (size_t i = 0; i < n; ++i) if (i % 3 && v[i].x < v[i].y) std::swap(v[i].x, v[i].y); break;
        case 4: if (n) { v[n - 1].y = v[n - 1].x; } break;
        default: break; }
    // more entries in the file than the ordinal type holds, though what is kept fits
    if (sizeof(O) == 1 && (X || (U && !S)) && r.chance(1, 2)) { size_t extra = r.range(200, 700); std::vector<Ent> mixed; size_t k = 0, total = n + extra; for (size_t i = 0; i < total; ++i) { if (r.below(total - i) < n - k) mixed.push_back(v[k++]); else { Ent e; if (n) e = r.pick(v); else { e.x = e.y = 7; WGen<W>::gen(r, e); } if (X) e.y = e.x; else { e.y = e.x / 2; if (e.x == e.y) e.x = e.y + 1; } mixed.push_back(e); } } v = mixed; n = v.size(); stat("more_dropped_than_fit"); }
    Noise nz(r); std::string s = render_el<W>(r, v, WG, r.chance(1, 6), nz); if (s.empty()) s = "\n"; if (!cuts && r.chance(1, 5)) page_align_front(s);
    if (cuts && s.size() > 110) return;
    auto want = apply_opts(v, S, U, X); std::string fn = new_file(s);
    stat("entries_dropped", n > want.size() ? n - want.size() : 0); stat("entries_mirrored", want.size() > n ? want.size() - n : 0);
    int lo = cuts ? 1 : pick_threads(r), hi = cuts ? (int)s.size() + 2 : lo;
    for (int t = lo; t <= hi; t += (t > 24 ? 9 : 1)) {
        set_threads(t); stat("evaluations"); stat("entries_checked", want.size()); seen("inputs", hash_str(s) ^ t ^ ((S * 4 + U * 2 + X) << 20)); stat_max("threads", t);
        label(optname(S, U, X) + " " + tname<L>() + "," + tname<O>() + (WG ? std::string(" w:") + tname<W>() : "") + " threads=" + std::to_string(t) + " text=" + s.substr(0, 250));
        Box<C> b(pick_pattern(r)); { guard::Scope g; b.make(fn, pigo::EDGE_LIST); } C& c = b.get();
        cmp_loaded<W>(c, want, WG, "loaded");
        if (!want.empty()) { u64 mx = 0, my = 0; for (auto& e : want) { mx = std::max(mx, e.x); my = std::max(my, e.y); } cmp_dims((u64)c.n(), (u64)c.nrows(), (u64)c.ncols(), std::max(mx, my) + 1, mx + 1, my + 1, "loaded"); }
        c.free();
    }
}
template<bool S, bool U, bool X> void opt(Rng& r, bool cuts) {
    switch (r.below(cuts ? 2 : 6)) {
        case 0: one<u32, u32, 0, S, U, X, false, float>(r, cuts); break;
        case 1: one<u32, u32, 0, S, U, X, true, int>(r, cuts); break;
        case 2: one<u64, u32, 1, S, U, X, true, double>(r, cuts); break;
        case 3: one<u8, u32, 2, S, U, X, true, u8>(r, cuts); break;
        case 4: one<u32, u8, 0, S, U, X, true, int>(r, cuts); break;
        default: one<u16, u64, 1, S, U, X, false, float>(r, cuts); break;
    }
}
static void any(Rng& r, bool cuts) {
    switch (r.below(8)) {
        case 0: opt<false, false, false>(r, cuts); break; case 1: opt<true, false, false>(r, cuts); break; case 2: opt<false, true, false>(r, cuts); break; case 3: opt<false, false, true>(r, cuts); break;
        case 4: opt<true, true, false>(r, cuts); break; case 5: opt<true, false, true>(r, cuts); break; case 6: opt<false, true, true>(r, cuts); break; default: opt<true, true, true>(r, cuts); break; }
}
H_GROUP(files) { any(rng, false); }
H_GROUP(cuts) { any(rng, true); }
H_GROUP(large) { switch (rng.below(4)) { case 0: one<u32, u32, 0, true, false, false, true, int>(rng, false, 200000); break; case 1: one<u32, u32, 0, false, true, false, true, int>(rng, false, 200000); break; case 2: one<u32, u32, 0, false, false, true, true, int>(rng, false, 200000); break; default: one<u32, u32, 0, true, false, true, true, int>(rng, false, 200000); } }
