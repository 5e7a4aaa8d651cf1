// C05: adjacency (.graph) files load exactly; contradicting files are rejected.
#include "obj.hpp"
#include "guard.hpp"
#include "big.hpp"
using namespace h;

struct G { u64 n = 0, hm = 0; bool one = false; std::vector<std::vector<u64>> rows; std::string text; };

static void render(Rng& r, G& g, size_t drop_rows, const std::string& extra_row) {
    Noise nz(r); std::string s;
    if (nz.comments) nz.blanks ? nz.filler(r, s) : nz.filler(r, s);   // before the header: comments and blank lines
    s += std::to_string(g.n) + sep(r, nz.fancy) + std::to_string(g.hm);
    if (r.chance(1, 4)) s += r.pick({" 0", " 000", " 1 2", " 10"});
    if (nz.trailing && r.chance(1, 3)) s += std::string(" ") + r.pick({"%", "#"}) + comment_text(r);
    s += nz.eol();
    auto comments = [&]() { while (nz.comments && r.below(nz.rate) == 0) { if (nz.lead && r.chance(1, 3)) s += sep(r, true); s += r.chance(1, 2) ? "#" : "%"; s += comment_text(r); s += nz.eol(); } };
    comments();
    size_t k = g.rows.size() - drop_rows;
    for (size_t i = 0; i < k; ++i) {
        if (nz.lead && r.chance(1, 4)) s += sep(r, true);
        for (size_t j = 0; j < g.rows[i].size(); ++j) { if (j) s += sep(r, nz.fancy); s += num(r, g.rows[i][j], nz.fancy && g.rows[i][j]); }
        if (!g.rows[i].empty() && nz.trailing && r.chance(1, 3)) { if (!r.chance(1, 6)) s += sep(r, nz.fancy); s += r.chance(1, 2) ? "#" : "%"; s += comment_text(r); }
        else if (nz.fancy && r.chance(1, 4)) s += sep(r, true);
        bool last = i + 1 == k;
        if (!last || nz.tailnl || g.rows[i].empty() || !extra_row.empty()) { s += nz.eol(); comments(); }
    }
    if (!extra_row.empty()) s += extra_row;
    g.text = s;
}
static G make(Rng& r, u64 maxl, u64 maxrows, bool huge_labels) {
    G g;
    for (;;) {
        g = G(); g.one = r.chance(1, 2);
        switch (r.below(6)) { case 0: g.n = r.range(1, 3); break; case 1: case 2: g.n = r.range(2, 12); break; case 3: case 4: g.n = r.range(5, 120); break; default: g.n = r.range(100, 2500); }
        g.n = std::min(g.n, maxrows);
        u64 lo = g.one ? 1 : 0, hi = (huge_labels && r.chance(1, 6)) ? maxl : std::min(maxl, g.n - 1 + lo);
        if (hi < lo) hi = lo;
        unsigned dens = (unsigned)r.pick({0, 1, 2, 4, 12, 50}); size_t tot = 0; bool zero = false;
        g.rows.resize(g.n);
        unsigned emptyp = (unsigned)r.pick({0, 1, 4, 8});
        for (auto& row : g.rows) { if (r.below(10) < emptyp) continue; size_t d = r.below(dens + 2); for (size_t k = 0; k < d; ++k) { u64 v = lo + r.below(hi - lo + 1); row.push_back(v); zero |= v == 0; ++tot; } }
        if (r.chance(1, 4) && g.n > 2) { g.rows.front().clear(); if (r.chance(1, 2)) g.rows[1].clear(); tot = 0; zero = false; for (auto& w : g.rows) for (u64 v : w) { ++tot; zero |= v == 0; } }
        if (r.chance(1, 4) && g.n > 2) { g.rows.back().clear(); tot = 0; zero = false; for (auto& w : g.rows) for (u64 v : w) { ++tot; zero |= v == 0; } }
        if (!tot) continue;
        if (!g.one && !zero) { if (r.chance(1, 4)) g.one = true; else { for (auto& w : g.rows) if (!w.empty()) { w[r.below(w.size())] = 0; zero = true; break; } } }
        if (tot % 2 == 0 && r.chance(1, 2)) g.hm = tot / 2; else g.hm = tot;
        return g;
    }
}
static void observe(const G& g, int t) { stat("evaluations"); seen("inputs", hash_str(g.text) ^ t); stat_max("threads", t); if (g.text.back() != '\n') stat("unterminated_files"); stat(g.one ? "one_based" : "zero_based"); }
static u64 total(const G& g) { u64 t = 0; for (auto& w : g.rows) t += w.size(); return t; }

template<class C> void check(C& c, const G& g) {
    u64 shift = g.one ? 1 : 0, mx = 0; Csr want; want.n = g.n; want.nr = g.n + shift; want.m = total(g); want.rows.resize(want.nr);
    for (size_t i = 0; i < g.rows.size(); ++i) for (u64 v : g.rows[i]) { want.rows[i + shift].push_back({v, 0}); mx = std::max(mx, v); }
    H_CHECK((u64)c.nrows() == want.nr && (u64)c.n() == want.n, "dims", "n=%llu nrows=%llu expected %llu %llu", (unsigned long long)c.n(), (unsigned long long)c.nrows(), (unsigned long long)want.n, (unsigned long long)want.nr);
    H_CHECK((u64)c.m() == want.m, "entry-count", "m=%llu expected %llu", (unsigned long long)c.m(), (unsigned long long)want.m);
    H_CHECK((u64)c.ncols() == mx + 1, "dims", "ncols=%llu expected %llu", (unsigned long long)c.ncols(), (unsigned long long)mx + 1);
    Csr got = read_csr(c, false); cmp_rows(got, want, "graph");
}
template<class L, class O, int K> void good(Rng& r) {
    typedef pigo::CSR<L, O, Store<L, K>, Store<O, K>> C;
    G g = make(r, max_label<L>(), std::min<u64>(max_label<L>() - 1, 3000), true); 
    if (total(g) > (u64)std::numeric_limits<O>::max() / 3) return;
    render(r, g, 0, ""); int t = pick_threads(r); set_threads(t); observe(g, t); stat("entries_checked", total(g));
    label(std::string(tname<L>()) + "," + tname<O>() + " threads=" + std::to_string(t) + " text=" + g.text.substr(0, 250));
    bool ext = r.chance(1, 2); std::string fn = new_file(g.text, ext ? ".graph" : "");
    Box<C> b(pick_pattern(r)); { guard::Scope gg; if (ext) b.make(fn); else if (r.chance(1, 2)) b.make(fn, pigo::GRAPH); else { pigo::ROFile f(fn); b.make(f, pigo::GRAPH); } }
    check(b.get(), g); b.get().free();
    std::string e = guard::take_errors(); H_CHECK(e.empty() && guard::live_maps() == 0, "mapping", "%s live=%zu", e.c_str(), guard::live_maps());
}
H_GROUP(good) {
    switch (rng.below(7)) {
        case 6: good<u32, u8, 0>(rng); break;
        case 0: case 1: good<u32, u32, 0>(rng); break;
        case 2: good<u64, u64, 1>(rng); break;
        case 3: good<u32, u64, 2>(rng); break;
        case 4: good<u8, u16, 1>(rng); break;
        default: good<u16, u32, 0>(rng); break;
    }
}
H_GROUP(cuts) {
    G g; do { g = make(rng, 100, 5, false); } while (total(g) > 12);
    render(rng, g, 0, ""); if (g.text.size() > 90) return;
    std::string fn = new_file(g.text, ".graph");
    for (int t = 1; t <= (int)g.text.size() + 2; t += (t > 24 ? 7 : 1)) {
        set_threads(t); observe(g, t); label("threads=" + std::to_string(t) + " text=" + g.text);
        Box<pigo::CSR<>> b(pick_pattern(rng)); { guard::Scope gg; b.make(fn); } check(b.get(), g); b.get().free();
    }
}
H_GROUP(large) {
    G g; g.n = rng.chance(1, 4) ? rng.range(65000, 200000) : rng.range(3000, 40000); g.one = rng.chance(1, 2); g.rows.resize(g.n); u64 tot = 0;
    for (auto& w : g.rows) { size_t d = rng.below(8); for (size_t k = 0; k < d; ++k) w.push_back((g.one ? 1 : 0) + rng.below(g.n)); tot += d; }
    if (rng.chance(1, 3)) { auto& w = g.rows[rng.below(g.n)]; for (size_t k = rng.range(60000, 200000); k; --k) { w.push_back(1 + rng.below(g.n - 1)); ++tot; } }
    if (!g.one) { g.rows[g.n / 2].push_back(0); ++tot; }
    g.hm = tot; render(rng, g, 0, ""); int t = pick_threads(rng); set_threads(t); observe(g, t); label("large n=" + std::to_string(g.n) + " threads=" + std::to_string(t));
    std::string fn = new_file(g.text, ".graph"); Box<pigo::CSR<>> b(pick_pattern(rng)); { guard::Scope gg; b.make(fn); } check(b.get(), g); b.get().free();
}
H_GROUP(reject) {
    G g = make(rng, 60000, 1500, false); std::string what; u64 tot = total(g); size_t drop = 0; std::string extra;
    unsigned k = (unsigned)rng.below(4);
    if (k == 0) { // wrong entry count
        u64 d; do { d = rng.chance(1, 2) ? tot + rng.range(1, 3) : rng.below(tot * 3 + 3); } while (d == tot || 2 * d == tot);
        g.hm = d; what = "entry count";
    } else if (k == 1) { // fewer rows: the removed rows are counted out of the header so that only the rows are wrong
        drop = rng.chance(1, 2) ? 1 : rng.range(1, g.n); 
        u64 t2 = 0; bool zero = false; for (size_t i = 0; i + drop < g.rows.size(); ++i) { t2 += g.rows[i].size(); for (u64 v : g.rows[i]) zero |= v == 0; } (void)zero;
        if (!t2) return; g.hm = t2; what = "rows missing";
    } else if (k == 2) { // declared rows one too few: neighbours after the last row
        extra = std::to_string(rng.range(1, 5)) + (rng.chance(1, 2) ? "\n" : ""); g.hm = tot + 1; what = "row too many";
    } else { drop = 1; what = "last row missing"; }
    if (k == 3 && g.rows.back().empty() && false) return;
    render(rng, g, drop, extra);
    int t = pick_threads(rng); set_threads(t); observe(g, t); label("reject " + what + " threads=" + std::to_string(t) + " text=" + g.text.substr(0, 250));
    std::string fn = new_file(g.text, ".graph");
    must_throw([&] { guard::Scope gg; pigo::CSR<u32, u32, std::vector<u32>, std::vector<u32>> c(fn, pigo::GRAPH); }, false, "contradiction-accepted", what.c_str());
    stat("contradictions_checked"); H_CHECK(guard::live_maps() == 0, "mapping-leak", "%zu mappings left", guard::live_maps());
}
H_GROUP(weighted) {
    G g = make(rng, 60000, 300, false); render(rng, g, 0, ""); int t = pick_threads(rng); set_threads(t); observe(g, t); label("weighted text=" + g.text.substr(0, 200));
    std::string fn = new_file(g.text, ".graph"); unsigned k = (unsigned)rng.below(3);
    must_throw([&] { guard::Scope gg; if (k == 0) pigo::CSR<u32, u32, std::vector<u32>, std::vector<u32>, true> c(fn); else if (k == 1) pigo::CSR<u64, u64, std::vector<u64>, std::vector<u64>, true, int, std::vector<int>> c(fn, pigo::GRAPH); else pigo::COO<u32, u32, std::vector<u32>, false, false, false, true, float, std::vector<float>> c(fn); }, false, "weighted-accepted", "weighted load");
    H_CHECK(guard::live_maps() == 0, "mapping-leak", "%zu mappings left", guard::live_maps());
}
// A file of more than 4 GiB, nearly all of it a hole inside a comment.
H_GROUP(huge) {
    bool early = rng.chance(1, 3); std::string h = "5 8\n", a = "1 2\n0 3\n", b = "4\n\n1 2 3"; std::string fn = early ? holed(rng, "% ", "\n" + h + a + b, ".graph") : holed(rng, h + a + "# ", "\n" + b, ".graph"); if (fn.empty()) return; int t = (int)rng.pick({3, 8, 16}); set_threads(t); label(std::string("sparse file over 4 GiB ") + (early ? "early" : "late") + " threads=" + std::to_string(t)); stat("evaluations"); seen("inputs", t * 2 + early);
    Box<pigo::CSR<>> bx(pick_pattern(rng)); { guard::Scope gg; bx.make(fn); } Csr want; want.n = want.nr = 5; want.nc = 5; want.m = 8; want.rows = {{{1, 0}, {2, 0}}, {{0, 0}, {3, 0}}, {{4, 0}}, {}, {{1, 0}, {2, 0}, {3, 0}}}; Csr got = read_csr(bx.get(), false); cmp_rows(got, want, "huge"); cmp_dims(got.n, got.nr, got.nc, 5, 5, 5, "huge"); bx.get().free();
}
