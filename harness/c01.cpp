// C01: edge lists load exactly.
#include "gen.hpp"
#include "guard.hpp"
using namespace h;

static void observe_text(const std::string& s, size_t m, int t) {
    stat("evaluations"); seen("inputs", hash_str(s) ^ t); stat("bytes_loaded", s.size()); stat("entries_checked", m); stat_max("threads", t);
    if (s.size() % 4096 == 0) stat("page_exact_files");
    if (s.size() && s.back() != '\n') stat("unterminated_files");
    if ((size_t)t > m) stat("more_threads_than_entries");
}

template<class L, class O, int K, bool WG, class W, class C>
void check(C& c, const std::vector<Ent>& v) {
    H_CHECK((u64)c.m() == v.size(), "entry-count", "m=%llu expected %zu", (unsigned long long)c.m(), v.size());
    u64 mx = 0, my = 0;
    for (size_t i = 0; i < v.size(); ++i) {
        u64 x = (u64)raw(c.x())[i], y = (u64)raw(c.y())[i];
        H_CHECK(x == v[i].x && y == v[i].y, "entry-value", "entry %zu of %zu is (%llu,%llu) expected (%llu,%llu)", i, v.size(), (unsigned long long)x, (unsigned long long)y, (unsigned long long)v[i].x, (unsigned long long)v[i].y);
        if constexpr (WG) { W w = raw(c.w())[i]; H_CHECK(WGen<W>::eq(v[i], w), "weight-value", "entry %zu weight %s expected %s", i, wstr(w).c_str(), v[i].w.c_str()); }
        mx = std::max(mx, v[i].x); my = std::max(my, v[i].y);
    }
    if (!v.empty()) {
        H_CHECK((u64)c.nrows() == mx + 1, "nrows", "nrows=%llu expected %llu", (unsigned long long)c.nrows(), (unsigned long long)mx + 1);
        H_CHECK((u64)c.ncols() == my + 1, "ncols", "ncols=%llu expected %llu", (unsigned long long)c.ncols(), (unsigned long long)my + 1);
        H_CHECK((u64)c.n() == std::max(mx, my) + 1, "labels", "n=%llu expected %llu", (unsigned long long)c.n(), (unsigned long long)std::max(mx, my) + 1);
    }
}

template<class L, class O, int K, bool WG, class W> void one(Rng& r) {
    typedef pigo::COO<L, O, Store<L, K>, false, false, false, WG, W, Store<W, K>> C;
    u64 cap = std::min<u64>((u64)std::numeric_limits<O>::max(), 100000);
    size_t n = pick_count(r, (size_t)cap);
    auto v = gen_ents<W>(r, n, max_label<L>(), max_label<L>(), true, WG);
    Noise nz(r); bool extra = r.chance(1, WG ? 5 : 3);
    std::string s = render_el<W>(r, v, WG, extra, nz);
    if (s.empty()) s = "\n";
    if (r.chance(1, 4)) page_align_front(s);
    int t = pick_threads(r);
    label(std::string(tname<L>()) + "," + tname<O>() + ",store" + std::to_string(K) + (WG ? std::string(",w:") + tname<W>() : "") + " threads=" + std::to_string(t) + " bytes=" + std::to_string(s.size()) + " text=" + s.substr(0, 200));
    observe_text(s, n, t);
    set_threads(t);
    std::string fn = new_file(s, r.pick({".el", "", ".txt"}));
    Box<C> b(pick_pattern(r));
    { guard::Scope g;
      if (r.chance(1, 3)) b.make(fn);
      else if (r.chance(1, 2)) b.make(fn, pigo::EDGE_LIST);
      else { pigo::ROFile f(fn); b.make(f, r.chance(1, 2) ? pigo::EDGE_LIST : pigo::AUTO); } }
    check<L, O, K, WG, W>(b.get(), v);
    b.get().free();
    std::string e = guard::take_errors(); H_CHECK(e.empty(), "mapping", "%s", e.c_str());
    H_CHECK(guard::live_maps() == 0, "mapping-leak", "%zu mappings left", guard::live_maps());
}

H_GROUP(plain) {
    switch (rng.below(10)) {
        case 0: one<u32, u32, 0, false, float>(rng); break;
        case 8: one<u32, u8, 0, false, float>(rng); break;
        case 1: one<u64, u64, 1, false, float>(rng); break;
        case 2: one<u32, u64, 2, false, float>(rng); break;
        case 3: one<u64, u32, 0, false, float>(rng); break;
        case 4: one<u8, u32, 1, false, float>(rng); break;
        case 5: one<u16, u16, 0, false, float>(rng); break;
        case 6: one<int, int, 0, false, float>(rng); break;
        case 7: one<int64_t, int64_t, 2, false, float>(rng); break;
        default: one<u32, u32, 1, false, float>(rng); break;
    }
}
H_GROUP(weighted) {
    switch (rng.below(12)) {
        case 10: one<u64, int8_t, 0, true, u16>(rng); break;
        case 0: one<u32, u32, 0, true, float>(rng); break;
        case 1: one<u64, u64, 1, true, double>(rng); break;
        case 2: one<u32, u64, 2, true, int>(rng); break;
        case 3: one<u64, u32, 0, true, int64_t>(rng); break;
        case 4: one<u8, u32, 1, true, u32>(rng); break;
        case 5: one<u16, u16, 0, true, u64>(rng); break;
        case 6: one<int, int, 0, true, int16_t>(rng); break;
        case 7: one<int64_t, int64_t, 2, true, u8>(rng); break;
        case 8: one<u32, u32, 1, true, double>(rng); break;
        case 9: one<u32, u32, 0, true, int8_t>(rng); break;
        default: one<u32, u32, 0, true, double>(rng); break;
    }
}
// Every cut position: short files, every team size from 1 to beyond the byte count.
template<class C, bool WG> static void cuts(Rng& rng) {
    size_t n = rng.range(1, 4); auto v = gen_ents<int>(rng, n, 200, 200, false, WG);
    Noise nz(rng); std::string s = render_el<int>(rng, v, WG, rng.chance(1, 4), nz);
    if (s.size() > 90) return;
    std::string fn = new_file(s);
    for (int t = 1; t <= (int)s.size() + 2; t += (t > 24 ? 7 : 1)) {
        label("threads=" + std::to_string(t) + " text=" + s); set_threads(t); observe_text(s, n, t);
        Box<C> b(pick_pattern(rng)); { guard::Scope g; b.make(fn); }
        check<u32, u32, 0, WG, int>(b.get(), v); b.get().free();
    }
}
H_GROUP(cuts) { if (rng.chance(1, 2)) cuts<pigo::COO<>, false>(rng); else cuts<pigo::WCOOPtr<u32, u32, int>, true>(rng); }
// Large inputs: real concurrency, prefix sums over many entries.
H_GROUP(large) {
    size_t n = rng.range(20000, 150000);
    auto v = gen_ents<float>(rng, n, 5000000, 5000000, true, false);
    Noise nz(rng); nz.rate += 30; std::string s = render_el<float>(rng, v, false, rng.chance(1, 4), nz);
    int t = pick_threads(rng); set_threads(t); label("large n=" + std::to_string(n) + " threads=" + std::to_string(t)); observe_text(s, n, t);
    std::string fn = new_file(s); Box<pigo::COO<>> b(pick_pattern(rng)); { guard::Scope g; b.make(fn); }
    check<u32, u32, 0, false, float>(b.get(), v); b.get().free();
}
// A file of more than 4 GiB (almost all of it a hole inside a comment line).
H_GROUP(huge) {
    std::string head = "5 6\n7 8\n# ", tail = "\n1 2\n3000000000 4\n9 10";
    std::string fn = tmp_name(); put_file(fn, head); u64 total = (4ull << 30) + rng.range(1, 100000);
    if (truncate(fn.c_str(), (off_t)total) != 0) { stat("huge_skipped"); return; }
    int fd = open(fn.c_str(), O_WRONLY | O_APPEND); if (fd < 0 || ::write(fd, tail.data(), tail.size()) != (ssize_t)tail.size()) exit(9); close(fd);
    set_threads(8); stat("huge_bytes", total); label("sparse file over 4 GiB");
    Box<pigo::COO<>> b(0xa5); { guard::Scope g; b.make(fn); }
    std::vector<Ent> v(5); u64 xs[][2] = {{5, 6}, {7, 8}, {1, 2}, {3000000000u, 4}, {9, 10}}; for (int i = 0; i < 5; ++i) { v[i].x = xs[i][0]; v[i].y = xs[i][1]; }
    check<u32, u32, 0, false, float>(b.get(), v); b.get().free();
}
