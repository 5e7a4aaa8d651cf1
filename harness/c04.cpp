// C04: Matrix Market files load exactly; contradicting headers are rejected.
#include "obj.hpp"
#include "guard.hpp"
#include "big.hpp"
using namespace h;

template<class W> struct MM {
    std::vector<Ent> v; u64 R, C, nnz; std::string banner = "%%MatrixMarket matrix coordinate"; std::string text; bool weighted;
    void render(Rng& r, bool w) {
        weighted = w; Noise nz(r); nz.blanks = nz.blanks && r.chance(1, 2);
        std::string s = banner; s += r.pick({" real", " integer", " pattern", " complex", ""}); s += r.pick({" general", " symmetric", " skew-symmetric", ""}); s += nz.eol();
        nz.filler(r, s);
        if (r.chance(1, 3)) { s += "%" + comment_text(r) + nz.eol(); }
        if (nz.lead && r.chance(1, 4)) s += sep(r, true);
        s += std::to_string(R) + sep(r, nz.fancy) + std::to_string(C) + sep(r, nz.fancy) + std::to_string(nnz);
        if (nz.trailing && r.chance(1, 3)) s += " %" + comment_text(r);
        std::string body = v.empty() ? std::string() : render_el<W>(r, v, w, r.chance(1, 5), nz);
        if (!v.empty() || nz.tailnl) s += nz.eol();
        text = s + body;
        if (r.chance(1, 4)) { size_t p = text.find('\n') + 1; page_align_front(text, p); }
    }
};
template<class W> MM<W> make(Rng& r, u64 maxl, u64 cap, bool weighted) {
    MM<W> m; size_t n = r.chance(1, 12) ? 0 : pick_count(r, (size_t)cap);
    m.v = gen_ents<W>(r, n, maxl - 1, maxl - 1, true, weighted);
    u64 mx = 0, my = 0; for (auto& e : m.v) { mx = std::max(mx, e.x); my = std::max(my, e.y); }
    auto up = [&](u64 a) { u64 room = maxl - a; return a + (r.chance(1, 2) ? 0 : std::min<u64>(room, r.chance(1, 2) ? 1 : r.below(1000))); };
    m.R = up(mx); m.C = up(my); m.nnz = n; return m;
}
static void observe(const std::string& s, int t) { stat("evaluations"); seen("inputs", hash_str(s) ^ t); stat_max("threads", t); }

template<class L, class O, int K, bool S, bool U, bool X, bool WG, class W> void good(Rng& r) {
    typedef pigo::COO<L, O, Store<L, K>, S, U, X, WG, W, Store<W, K>> C;
    u64 maxl = max_label<L>();
    auto m = make<W>(r, maxl, std::min<u64>((u64)std::numeric_limits<O>::max() / 2, 20000), WG); m.render(r, WG);
    auto want = apply_opts(m.v, S, U, X);
    int t = pick_threads(r); set_threads(t); observe(m.text, t);
    label(std::string(tname<L>()) + "," + tname<O>() + " opts=" + optname(S, U, X) + " threads=" + std::to_string(t) + " text=" + m.text.substr(0, 200));
    bool ext = r.chance(1, 2); std::string fn = new_file(m.text, ext ? ".mtx" : r.pick({"", ".txt", ".graph"}));
    Box<C> b(pick_pattern(r));
    { guard::Scope g; if (ext && r.chance(1, 2)) b.make(fn); else b.make(fn, pigo::MATRIX_MARKET); }
    C& c = b.get();
    cmp_loaded<W>(c, want, WG, "coo");
    u64 nr = m.R + 1, nc = m.C + 1; if (S) nr = nc = std::max(nr, nc);
    cmp_dims((u64)c.n(), (u64)c.nrows(), (u64)c.ncols(), std::max(nr, nc), nr, nc, "coo");
    stat("entries_checked", want.size()); if (m.v.empty()) stat("empty_matrices");
    c.free();
    std::string e = guard::take_errors(); H_CHECK(e.empty() && guard::live_maps() == 0, "mapping", "%s live=%zu", e.c_str(), guard::live_maps());
}
template<class L, class O, bool S, bool U, bool X, bool WG, class W> void bad(Rng& r) {
    typedef pigo::COO<L, O, std::vector<L>, S, U, X, WG, W, std::vector<W>> C;
    u64 maxl = std::min<u64>(max_label<L>(), 1000000);
    auto m = make<W>(r, maxl, std::min<u64>((u64)std::numeric_limits<O>::max() / 2, 3000), WG);
    u64 mx = 0, my = 0; for (auto& e : m.v) { mx = std::max(mx, e.x); my = std::max(my, e.y); }
    std::string what; unsigned k = (unsigned)r.below(4);
    if (k == 0 || m.v.empty()) { u64 d = r.chance(1, 2) ? 1 : r.range(1, 20); if (r.chance(1, 2) && m.nnz >= d) m.nnz -= d; else m.nnz += d; if (!m.v.empty() && r.chance(1, 8)) m.nnz = r.pick<u64>({0, m.v.size() * 2, apply_opts(m.v, true, false, false).size() == m.v.size() ? m.v.size() + 1 : apply_opts(m.v, true, false, false).size()}); what = "entry count"; }
    else {
        // labels one (or more) too large for the header; dropped entries are not consulted
        auto kept = apply_opts(m.v, S, U, X); u64 kx = 0, ky = 0; for (auto& e : kept) { kx = std::max(kx, e.x); ky = std::max(ky, e.y); }
        if (S) { u64 q = std::max(kx, ky); if (q == 0 || kept.empty()) { m.nnz += 1; what = "entry count"; } else { u64 lim = r.chance(1, 2) ? q - 1 : r.below(q); m.R = r.chance(1, 2) ? lim : r.below(lim + 1); m.C = m.R == lim && r.chance(1, 2) ? r.below(lim + 1) : lim; what = "sizes"; } }
        else if (k == 1 && kx > 0) { m.R = r.chance(1, 2) ? kx - 1 : r.below(kx); what = "row"; }
        else if (ky > 0) { m.C = r.chance(1, 2) ? ky - 1 : r.below(ky); what = "column"; }
        else { m.nnz += 1; what = "entry count"; }
        (void)my;
    }
    m.render(r, WG); int t = pick_threads(r); set_threads(t); observe(m.text, t);
    label("contradicting " + what + " opts=" + optname(S, U, X) + " threads=" + std::to_string(t) + " text=" + m.text.substr(0, 200));
    std::string fn = new_file(m.text, ".mtx");
    must_throw([&] { guard::Scope g; C c(fn); }, false, "contradiction-accepted", what.c_str());
    if (!S && !U && !X && r.chance(1, 3)) must_throw([&] { guard::Scope g; pigo::CSR<L, O, L*, O*, WG, W, W*> c(fn, pigo::MATRIX_MARKET); }, false, "contradiction-accepted", what.c_str());
    stat("contradictions_checked"); H_CHECK(guard::live_maps() == 0, "mapping-leak", "%zu mappings left", guard::live_maps());
}

template<class L, class O, bool WG, class W> void bad_plain(Rng& r) { bad<L, O, false, false, false, WG, W>(r); }

H_GROUP(good) {
    switch (rng.below(7)) {
        case 0: good<u32, u32, 0, false, false, false, false, float>(rng); break;
        case 1: good<u64, u64, 1, false, false, false, true, double>(rng); break;
        case 2: good<u32, u64, 2, false, false, false, true, int>(rng); break;
        case 3: good<u16, u16, 0, false, false, false, false, float>(rng); break;
        case 4: good<u8, u32, 1, false, false, false, false, float>(rng); break;
        case 5: good<int, int64_t, 1, false, false, false, true, float>(rng); break;
        default: good<u32, u16, 0, false, false, false, true, int64_t>(rng); break;
    }
}
H_GROUP(options) {
    switch (rng.below(7)) {
        case 0: good<u32, u32, 0, true, false, false, true, int>(rng); break;
        case 1: good<u32, u32, 0, false, true, false, true, int>(rng); break;
        case 2: good<u64, u32, 1, false, false, true, false, float>(rng); break;
        case 3: good<u32, u32, 0, true, true, false, false, float>(rng); break;
        case 4: good<u32, u64, 1, true, false, true, true, double>(rng); break;
        case 5: good<u32, u32, 0, false, true, true, true, int>(rng); break;
        default: good<u16, u32, 0, true, true, true, true, int>(rng); break;
    }
}
H_GROUP(contradict) {
    switch (rng.below(9)) {
        case 0: bad_plain<u32, u32, false, float>(rng); break;
        case 1: bad_plain<u64, u64, true, double>(rng); break;
        case 2: bad_plain<u16, u32, false, float>(rng); break;
        case 3: bad<u32, u32, true, false, false, false, float>(rng); break;
        case 4: bad<u32, u32, false, true, false, true, int>(rng); break;
        case 5: bad<u32, u32, false, false, true, true, int>(rng); break;
        case 6: bad<u32, u32, true, true, false, false, float>(rng); break;
        case 7: bad<u32, u32, false, true, true, false, float>(rng); break;
        default: bad<u32, u32, true, false, true, true, int>(rng); break;
    }
}
// Compressed, graph and matrix objects from Matrix Market files.
H_GROUP(csr) {
    auto m = make<int>(rng, rng.pick<u64>({5, 50, 2000, 30000}), 3000, true); m.R = std::min<u64>(m.R, 40000); m.C = std::min<u64>(m.C, 40000); m.render(rng, true);
    int t = pick_threads(rng); set_threads(t); observe(m.text, t); label("csr threads=" + std::to_string(t) + " text=" + m.text.substr(0, 200));
    std::string fn = new_file(m.text, ".mtx");
    typedef pigo::WCSRPtr<u32, u32, int> G; Box<G> b(pick_pattern(rng)); { guard::Scope g; b.make(fn); }
    Mat want; want.nr = m.R + 1; want.nc = m.C + 1; want.n = std::max(want.nr, want.nc); for (auto& e : m.v) want.e.push_back({e.x, e.y, wbits<int>((int)e.wi)});
    Csr w = to_rows(want), got = read_csr(b.get(), true); sort_rows(w); sort_rows(got); cmp_rows(got, w, "csr"); cmp_dims(got.n, got.nr, got.nc, want.n, want.nr, want.nc, "csr");
    b.get().free();
}
// Headers of other Matrix Market formats.
H_GROUP(format) {
    static const char* heads[] = {"%%MatrixMarket matrix array real general", "%%MatrixMarket matrix array integer symmetric", "%%MatrixMarket vector coordinate real general", "%%MatrixMarket matrix", "%%MatrixMarket", "%%MatrixMarket vector array real", "%%MatrixMarket tensor coordinate real general",
        "%MatrixMarket matrix coordinate real general", "%%NotMatrixMarket matrix coordinate", "%%MatrixMarket matrix coordinat", "% a comment", "1 1 1", "% %MatrixMarket matrix coordinate real general", "%%MatrixMarket  array"};
    std::string s = heads[rng.below(sizeof heads / sizeof *heads)]; s += rng.pick({"\n", "\r\n", "\n% c\n"}); s += rng.pick({"2 2\n1\n2\n3\n4\n", "3 3 1\n1 2 5\n", "", "1 1 0\n"});
    int t = pick_threads(rng); set_threads(t); observe(s, t); label("format text=" + s); std::string fn = new_file(s, ".mtx");
    unsigned k = (unsigned)rng.below(4);
    must_throw([&] { guard::Scope g; if (k == 0) pigo::COO<u32, u32, std::vector<u32>> c(fn); else if (k == 1) pigo::COO<u32, u32, u32*, true, false, false, true, int> c(fn, pigo::MATRIX_MARKET); else if (k == 2) pigo::CSR<> c(fn); else pigo::DiGraph<> c(fn, pigo::MATRIX_MARKET); }, true, "format-accepted", "other format");
    H_CHECK(guard::live_maps() == 0, "mapping-leak", "%zu mappings left", guard::live_maps()); stat("formats_checked");
}
// A file of more than 4 GiB, nearly all of it a hole inside a comment, before the sizes or among the entries.
H_GROUP(huge) {
    bool early = rng.chance(1, 2); std::string bn = "%%MatrixMarket matrix coordinate integer general\n", sz = "3000000000 20 5\n"; std::string fn = early ? holed(rng, bn + "% ", "\n" + sz + "5 6 7\n7 8 1\n1 2 3\n3000000000 4 -5\n9 10 11", ".mtx") : holed(rng, bn + sz + "5 6 7\n7 8 1\n% ", "\n1 2 3\n3000000000 4 -5\n9 10 11\n", ".mtx"); if (fn.empty()) return; int t = (int)rng.pick({3, 8, 16}); set_threads(t); label(std::string("sparse file over 4 GiB ") + (early ? "early" : "late") + " threads=" + std::to_string(t)); stat("evaluations"); seen("inputs", t * 2 + early);
    typedef pigo::COO<u32, u32, u32*, false, false, false, true, int, int*> C; Box<C> b(0xa5); { guard::Scope g; b.make(fn); } Mat m; m.nr = m.n = 3000000001u; m.nc = 21; u64 e[][3] = {{5, 6, 7}, {7, 8, 1}, {1, 2, 3}, {3000000000u, 4, (u64)-5}, {9, 10, 11}}; for (auto& x : e) m.e.push_back({x[0], x[1], wbits<int>((int)x[2])});
    cmp_mat(read_coo(b.get(), true), m, "huge"); b.get().free();
}
