// C14: sparse tensor files load exactly.
#include "ten.hpp"
#include "guard.hpp"
#include "big.hpp"
using namespace h;
struct TEnt { std::vector<u64> c; Ent w; };
static void observe(const std::string& s, size_t m, int t) { stat("evaluations"); seen("inputs", hash_str(s) ^ t); stat("entries_checked", m); stat_max("threads", t); if (s.size() % 4096 == 0) stat("page_exact_files"); if (s.size() && s.back() != '\n') stat("unterminated_files"); }

template<class W> std::vector<TEnt> gen(Rng& r, size_t n, u64 order, u64 maxl, bool weighted) {
    std::vector<TEnt> v(n); std::vector<LabelGen> g; for (u64 i = 0; i < order; ++i) g.emplace_back(r, maxl, true);
    for (auto& e : v) { for (u64 i = 0; i < order; ++i) e.c.push_back(std::min(g[i](r), maxl)); if (weighted) WGen<W>::gen(r, e.w); }
    return v;
}
static std::string render(Rng& r, const std::vector<TEnt>& v, bool weighted, const Noise& nz) {
    std::string o; nz.filler(r, o);
    for (size_t i = 0; i < v.size(); ++i) {
        if (nz.lead && r.chance(1, 4)) o += sep(r, true);
        for (size_t k = 0; k < v[i].c.size(); ++k) { if (k) o += sep(r, nz.fancy); o += num(r, v[i].c[k], nz.fancy); }
        if (weighted) { o += sep(r, nz.fancy); o += v[i].w.w; }
        if (nz.trailing && r.chance(1, 3)) { if (!r.chance(1, 8)) o += sep(r, nz.fancy); o += r.chance(1, 2) ? "#" : "%"; o += comment_text(r); }
        else if (nz.fancy && r.chance(1, 5)) o += sep(r, true);
        bool last = i + 1 == v.size(); if (!last || nz.tailnl) { o += nz.eol(); nz.filler(r, o); }
    }
    if (nz.tailnl && nz.comments && r.chance(1, 5)) { o += "# end"; if (r.chance(1, 2)) o += " 5 6"; }
    return o;
}
template<class W, bool WG, class T> void check(T& t, const std::vector<TEnt>& v, u64 order) {
    H_CHECK((u64)t.m() == v.size(), "entry-count", "m=%llu expected %zu", (unsigned long long)t.m(), v.size());
    if (v.empty()) return;
    H_CHECK((u64)t.order() == order, "order", "order=%llu expected %llu", (unsigned long long)t.order(), (unsigned long long)order);
    std::vector<u64> mx(order, 0);
    for (size_t i = 0; i < v.size(); ++i) {
        for (u64 k = 0; k < order; ++k) { u64 g = (u64)raw(t.c())[i * order + k]; H_CHECK(g == v[i].c[k], "coordinate", "entry %zu of %zu dim %llu is %llu expected %llu", i, v.size(), (unsigned long long)k, (unsigned long long)g, (unsigned long long)v[i].c[k]); mx[k] = std::max(mx[k], v[i].c[k]); }
        if (WG) { W w = raw(t.w())[i]; H_CHECK(WGen<W>::eq(v[i].w, w), "weight-value", "entry %zu weight %s expected %s", i, wstr(w).c_str(), v[i].w.w.c_str()); }
    }
    const T& ct = t; auto ml = ct.max_labels(); H_CHECK(ml.size() == order, "max-labels", "%zu maxima", ml.size());
    for (u64 k = 0; k < order; ++k) H_CHECK((u64)ml[k] == mx[k], "max-labels", "dim %llu: %llu expected %llu", (unsigned long long)k, (unsigned long long)ml[k], (unsigned long long)mx[k]);
}
template<class L, class O, int K, class W, bool WG> void text(Rng& r, size_t cap = 6000) {
    typedef pigo::Tensor<L, O, Store<L, K>, W, Store<W, K>, WG> T;
    u64 order = r.chance(1, 4) ? r.range(1, 12) : r.range(1, 5); size_t n = pick_count(r, std::min<u64>((u64)std::numeric_limits<O>::max() - 1, cap)); if (r.chance(1, 60)) { order = r.range(13, std::min<u64>(300, (u64)std::numeric_limits<O>::max() - 1)); n = std::min<size_t>(n, 100); }
    auto v = gen<W>(r, n, order, (u64)std::numeric_limits<L>::max(), WG); Noise nz(r); std::string s = render(r, v, WG, nz); if (s.empty()) s = "\n"; if (r.chance(1, 4)) page_align_front(s);
    int t = pick_threads(r); set_threads(t); observe(s, n, t);
    label(std::string(tname<L>()) + "," + tname<O>() + (WG ? std::string(",w:") + tname<W>() : "") + " order=" + std::to_string(order) + " threads=" + std::to_string(t) + " text=" + s.substr(0, 200));
    std::string fn = new_file(s, r.pick({".tns", "", ".txt"})); Box<T> b(pick_pattern(r));
    { guard::Scope g; if (r.chance(1, 3)) b.make(fn); else if (r.chance(1, 2)) b.make(fn, pigo::EDGE_LIST); else { pigo::ROFile f(fn); b.make(f, r.chance(1, 2) ? pigo::EDGE_LIST : pigo::AUTO); } }
    set_threads(pick_threads(r)); check<W, WG>(b.get(), v, order); b.get().free();
    std::string e = guard::take_errors(); H_CHECK(e.empty() && guard::live_maps() == 0, "mapping", "%s live=%zu", e.c_str(), guard::live_maps());
}
H_GROUP(weighted) {
    switch (rng.below(9)) {
        case 0: text<u32, u32, 0, float, true>(rng); break; case 1: text<u64, u64, 1, double, true>(rng); break; case 2: text<u32, u64, 2, int, true>(rng); break;
        case 3: text<u64, u32, 0, i64, true>(rng); break; case 4: text<u8, u32, 1, u32, true>(rng); break; case 5: text<u16, u16, 0, u64, true>(rng, 30000); break;
        case 6: text<int, int, 0, int16_t, true>(rng); break; case 7: text<u32, u8, 1, float, true>(rng); break; default: text<u32, u32, 0, double, true>(rng); break; }
}
H_GROUP(plain) {
    switch (rng.below(6)) { case 0: text<u32, u32, 0, float, false>(rng); break; case 1: text<u64, u64, 1, float, false>(rng); break; case 2: text<u8, u16, 2, float, false>(rng, 30000); break; case 3: text<u16, u32, 0, float, false>(rng); break; case 4: text<i64, int, 1, float, false>(rng); break; default: text<u32, u64, 0, double, false>(rng); break; }
}
template<class W, bool WG> void cuts(Rng& r) {
    u64 order = r.range(1, 3); size_t n = r.range(1, 4); auto v = gen<W>(r, n, order, 200, WG); Noise nz(r); std::string s = render(r, v, WG, nz); if (s.size() > 90) return; std::string fn = new_file(s);
    for (int t = 1; t <= (int)s.size() + 2; t += (t > 24 ? 7 : 1)) { label("order=" + std::to_string(order) + " threads=" + std::to_string(t) + " text=" + s); set_threads(t); observe(s, n, t); typedef pigo::Tensor<u32, u32, u32*, W, W*, WG> T; Box<T> b(pick_pattern(r)); { guard::Scope g; b.make(fn); } check<W, WG>(b.get(), v, order); b.get().free(); }
}
H_GROUP(cuts) { if (rng.chance(1, 2)) cuts<int, true>(rng); else cuts<float, false>(rng); }
H_GROUP(large) { if (rng.chance(1, 2)) text<u32, u32, 0, float, true>(rng, 60000); else {
    u64 order = rng.range(2, 6); size_t n = rng.range(10000, 60000); auto v = gen<int>(rng, n, order, 1000000, true); Noise nz(rng); nz.rate += 20; std::string s = render(rng, v, true, nz); int t = pick_threads(rng); set_threads(t); observe(s, n, t); label("large n=" + std::to_string(n) + " threads=" + std::to_string(t)); std::string fn = new_file(s); pigo::Tensor<u32, u32, std::vector<u32>, int, std::vector<int>> c(fn); check<int, true>(c, v, order); } }
// Maximum labels of constructed tensors, including ones without entries.
H_GROUP(maxima) {
    Ten m = gen_ten<float>(rng, rng.chance(1, 10) ? 0 : pick_count(rng, 6000), rng.range(1, 9), rng.pick<u64>({0, 5, 1000, 0xffffffffu}), false); int t = pick_threads(rng); set_threads(t); stat("evaluations"); seen("inputs", hash_ten(m) ^ t); label("maxima threads=" + std::to_string(t) + " " + desc(m));
    pigo::Tensor<u32, u32, std::vector<u32>, float, std::vector<float>, false> c((u32)m.order, (u32)m.m); fill_ten(c, m, false); const auto& cc = c; auto ml = cc.max_labels(); H_CHECK(ml.size() == m.order, "max-labels", "%zu maxima", ml.size());
    for (u64 k = 0; k < m.order; ++k) { u64 w = 0; for (size_t i = 0; i < m.m; ++i) w = std::max(w, m.c[i * m.order + k]); H_CHECK(ml[k] == w, "max-labels", "dim %llu: %u expected %llu", (unsigned long long)k, ml[k], (unsigned long long)w); }
    cmp_ten(read_ten(c, false), m, "after the query");
}
// A file of more than 4 GiB, nearly all of it a hole inside a comment.
H_GROUP(huge) {
    std::string fn = holed(rng, "5 6 7 8\n1 2 3 4\n# ", "\n9 10 11 12\n\n3000000000 2 3 4\n1 1 1 1", ".tns"); if (fn.empty()) return; int t = (int)rng.pick({3, 8, 16}); set_threads(t); label("sparse file over 4 GiB threads=" + std::to_string(t)); stat("evaluations"); seen("inputs", t);
    typedef pigo::Tensor<u32, u32, u32*, int, int*> T; Box<T> b(0xa5); { guard::Scope g; b.make(fn); } u64 e[][4] = {{5, 6, 7, 8}, {1, 2, 3, 4}, {9, 10, 11, 12}, {3000000000u, 2, 3, 4}, {1, 1, 1, 1}}; Ten m; m.order = 3; m.m = 5; for (auto& x : e) { for (int k = 0; k < 3; ++k) m.c.push_back(x[k]); m.w.push_back(wbits<int>((int)x[3])); }
    cmp_ten(read_ten(b.get(), true), m, "huge"); b.get().free();
}
