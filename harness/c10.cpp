// C10: binary save and load is lossless.
#include "ten.hpp"
#include "guard.hpp"
#include "big.hpp"
using namespace h;

// Entry counts; often close to the largest one a narrow ordinal type holds.
template<class O> size_t count_for(Rng& r, size_t cap, u64 less) { u64 lim = (u64)std::numeric_limits<O>::max() - less; if (r.chance(1, 10)) return 0; if (lim <= cap && r.chance(1, 3)) return (size_t)(lim - r.below(std::min<u64>(lim, r.pick({1, 5, 100})))); return pick_count(r, std::min<u64>(lim, cap)); }
static void observe(u64 x, int t) { stat("evaluations"); seen("inputs", x ^ t); stat_max("threads", t); }
static void old_content(Rng& r, const std::string& fn) { if (r.chance(1, 3)) { stat("overwrites"); put_file(fn, std::string(r.pick<size_t>({1, 10, 4096, 5000, 100000}), r.pick({'x', '\0', '7'}))); } }
static void map_state(const char* what) { std::string e = guard::take_errors(); H_CHECK(e.empty() && guard::live_maps() == 0 && guard::open_streams() == 0, "mapping", "%s: %s live=%zu streams=%zu", what, e.c_str(), guard::live_maps(), guard::open_streams()); }
// Loads T from fn by a randomly chosen entry point and passes it to f.
template<class T, class F> void load_any(Rng& r, const std::string& fn, pigo::FileType ft, F f) {
    Box<T> b(pick_pattern(r)); unsigned k = (unsigned)r.below(4);
    { guard::Scope g; if (k == 0) b.make(fn); else if (k == 1) b.make(fn, ft); else { pigo::File fl(fn, pigo::READ); if (k == 2) b.make(fl, ft); else b.make(fl, pigo::AUTO); } }
    stat(k == 0 || k == 3 ? "auto_loads" : "explicit_loads"); map_state("load"); f(b.get()); b.get().free();
}
static std::string name(Rng& r) { return tmp_name(r.pick({"", ".bin", ".mtx", ".graph", ".el"})); }
static void check_len(const std::string& fn, size_t want) { struct stat sb; H_CHECK(stat(fn.c_str(), &sb) == 0, "no-file", "no file"); H_CHECK((size_t)sb.st_size == want, "file-length", "file has %zu bytes, content %zu", (size_t)sb.st_size, want); }

template<class L, class O, int K1, int K2, class W, bool WG> void coo(Rng& r, size_t cap = 6000) {
    typedef pigo::COO<L, O, Store<L, K1>, false, false, false, WG, W, Store<W, K1>> S; typedef pigo::COO<L, O, Store<L, K2>, false, false, false, WG, W, Store<W, K2>> T;
    Mat m = gen_mat<W>(r, count_for<O>(r, cap, 0), std::min<u64>(max_label<L>(), 1u << 30), WG);
    if (WG) for (auto& e : m.e) if (r.chance(1, 3)) e.w = any_bits<W>(r);
    if (r.chance(1, 3)) { m.n = r.next() & (u64)std::numeric_limits<L>::max(); m.nr = r.next() & (u64)std::numeric_limits<L>::max(); m.nc = r.next() & (u64)std::numeric_limits<L>::max(); }
    int t = pick_threads(r), t2 = pick_threads(r); observe(hash_mat(m), t * 64 + t2); label(std::string("coo ") + tname<L>() + "," + tname<O>() + (WG ? std::string(" w:") + tname<W>() : "") + " threads=" + std::to_string(t) + "/" + std::to_string(t2) + " " + desc(m));
    S s((L)m.n, (L)m.nr, (L)m.nc, (O)m.e.size()); fill_coo(s, m, WG);
    std::string fn = name(r), fn2 = name(r); old_content(r, fn); old_content(r, fn2);
    set_threads(t); { guard::Scope g; s.save(fn); } map_state("save");
    cmp_mat(read_coo(s, WG), m, "source after save"); s.free();
    check_len(fn, strlen(S::coo_file_header) + 2 + 3 * sizeof(L) + sizeof(O) + m.e.size() * (2 * sizeof(L) + (WG ? sizeof(W) : 0)));
    std::string bytes = get_file(fn);
    set_threads(t2);
    load_any<T>(r, fn, pigo::PIGO_COO_BIN, [&](T& c) { cmp_mat(read_coo(c, WG), m, "loaded"); { guard::Scope g; c.save(fn2); } if (r.chance(1, 2)) { guard::Scope g; c.save(fn); } });
    H_CHECK(get_file(fn2) == bytes, "resave", "a loaded object saves to a different file"); H_CHECK(get_file(fn) == bytes, "resave", "saving over the loaded file changed it");
    stat("entries_checked", m.e.size());
}
template<class L, class O, int K1, int K2, class W, bool WG> Csr csr_model(Rng& r, size_t cap) {
    Mat m = gen_mat<W>(r, count_for<O>(r, cap, 1), std::min<u64>(max_label<L>() - 4, 300000), WG);
    if (WG) for (auto& e : m.e) if (r.chance(1, 3)) e.w = any_bits<W>(r);
    if (r.chance(1, 12)) { m.e.clear(); m.nr = m.nc = m.n = r.below(3); }
    Csr c = gen_csr_model(r, m); return c;
}
template<class L, class O, int K1, int K2, class W, bool WG> void csr(Rng& r, size_t cap = 6000) {
    typedef pigo::CSR<L, O, Store<L, K1>, Store<O, K1>, WG, W, Store<W, K1>> S; typedef pigo::CSR<L, O, Store<L, K2>, Store<O, K2>, WG, W, Store<W, K2>> T;
    Csr m = csr_model<L, O, K1, K2, W, WG>(r, cap);
    int t = pick_threads(r), t2 = pick_threads(r); observe(hash_csr(m), t * 64 + t2); label(std::string("csr ") + tname<L>() + "," + tname<O>() + (WG ? std::string(" w:") + tname<W>() : "") + " threads=" + std::to_string(t) + "/" + std::to_string(t2) + " " + desc(m));
    S s((L)m.n, (O)m.m, (L)m.nr, (L)m.nc); fill_csr(s, m, WG);
    std::string fn = name(r), fn2 = name(r); old_content(r, fn); old_content(r, fn2);
    size_t want = strlen(S::csr_file_header) + 2 + 3 * sizeof(L) + sizeof(O) + (m.rows.size() + 1) * sizeof(O) + m.m * (sizeof(L) + (WG ? sizeof(W) : 0));
    H_CHECK(s.save_size() == want, "save-size", "save_size %zu, content %zu", s.save_size(), want);
    set_threads(t); { guard::Scope g; s.save(fn); } map_state("save");
    cmp_csr(read_csr(s, WG), m, "source after save");
    check_len(fn, want); std::string bytes = get_file(fn);
    set_threads(t2);
    load_any<T>(r, fn, pigo::PIGO_CSR_BIN, [&](T& c) { cmp_csr(read_csr(c, WG), m, "loaded"); H_CHECK(c.save_size() == want, "save-size", "loaded save_size %zu, content %zu", c.save_size(), want); { guard::Scope g; c.save(fn2); } if (r.chance(1, 2)) { guard::Scope g; c.save(fn); } });
    H_CHECK(get_file(fn2) == bytes, "resave", "a loaded object saves to a different file"); H_CHECK(get_file(fn) == bytes, "resave", "saving over the loaded file changed it");
    if (r.chance(1, 4)) { // several objects in one file
        Csr m2 = csr_model<L, O, K1, K2, W, WG>(r, 300); S s2((L)m2.n, (O)m2.m, (L)m2.nr, (L)m2.nc); fill_csr(s2, m2, WG);
        { guard::Scope g; pigo::WFile w(fn, s.save_size() + s2.save_size()); s.save(w); s2.save(w); } 
        { guard::Scope g; pigo::ROFile f(fn); T a(f, pigo::PIGO_CSR_BIN); T b(f, m2.m + 1 > 0 && r.chance(1, 2) ? pigo::AUTO : pigo::PIGO_CSR_BIN); cmp_csr(read_csr(a, WG), m, "first of two"); cmp_csr(read_csr(b, WG), m2, "second of two"); H_CHECK(f.reader().size() == 0, "position", "%zu bytes left after both", f.reader().size()); a.free(); b.free(); }
        map_state("two objects"); s2.free(); stat("concatenated");
    }
    s.free(); stat("entries_checked", m.m);
}
template<class L, class O, int K1, int K2, class W, bool WG> void dig(Rng& r, size_t cap = 3000) {
    typedef pigo::COO<L, O, Store<L, K1>, false, false, false, WG, W, Store<W, K1>> C;
    typedef pigo::DiGraph<L, O, Store<L, K1>, Store<O, K1>, WG, W, Store<W, K1>> S; typedef pigo::DiGraph<L, O, Store<L, K2>, Store<O, K2>, WG, W, Store<W, K2>> T;
    Mat m = gen_mat<W>(r, count_for<O>(r, cap, 1), std::min<u64>(max_label<L>() - 4, 300000), WG);
    int t = pick_threads(r), t2 = pick_threads(r); observe(hash_mat(m), t * 64 + t2); label(std::string("digraph ") + tname<L>() + "," + tname<O>() + " threads=" + std::to_string(t) + "/" + std::to_string(t2) + " " + desc(m));
    C c((L)m.n, (L)m.nr, (L)m.nc, (O)m.e.size()); fill_coo(c, m, WG); S s(c); c.free();
    Csr in = read_csr(s.in(), WG), out = read_csr(s.out(), WG);
    std::string fn = name(r), fn2 = name(r); old_content(r, fn); old_content(r, fn2);
    set_threads(t); { guard::Scope g; s.save(fn); } map_state("save"); s.free();
    check_len(fn, strlen(S::digraph_file_header) + 2 * (strlen(pigo::CSR<>::csr_file_header) + 2 + 3 * sizeof(L) + sizeof(O)) + (in.rows.size() + 1 + out.rows.size() + 1) * sizeof(O) + 2 * m.e.size() * (sizeof(L) + (WG ? sizeof(W) : 0)));
    std::string bytes = get_file(fn); set_threads(t2);
    load_any<T>(r, fn, pigo::PIGO_DIGRAPH_BIN, [&](T& d) { cmp_csr(read_csr(d.in(), WG), in, "loaded in-edges"); cmp_csr(read_csr(d.out(), WG), out, "loaded out-edges"); H_CHECK((u64)d.n() == out.n && (u64)d.m() == out.m && (u64)d.nrows() == out.nr && (u64)d.ncols() == out.nc, "dims", "digraph counts"); { guard::Scope g; d.save(fn2); } if (r.chance(1, 2)) { guard::Scope g; d.save(fn); } });
    H_CHECK(get_file(fn2) == bytes, "resave", "a loaded object saves to a different file"); H_CHECK(get_file(fn) == bytes, "resave", "saving over the loaded file changed it");
}
template<class L, class O, int K1, int K2, class W, bool WG> void ten(Rng& r, size_t cap = 3000) {
    typedef pigo::Tensor<L, O, Store<L, K1>, W, Store<W, K1>, WG> S; typedef pigo::Tensor<L, O, Store<L, K2>, W, Store<W, K2>, WG> T;
    Ten m = gen_ten<W>(r, count_for<O>(r, cap, 1), r.chance(1, 3) ? r.range(1, 12) : r.range(1, 5), (u64)std::numeric_limits<L>::max(), WG);
    if (WG) for (auto& w : m.w) if (r.chance(1, 3)) w = any_bits<W>(r);
    int t = pick_threads(r), t2 = pick_threads(r); observe(hash_ten(m), t * 64 + t2); label(std::string("tensor ") + tname<L>() + "," + tname<O>() + (WG ? std::string(" w:") + tname<W>() : "") + " threads=" + std::to_string(t) + "/" + std::to_string(t2) + " " + desc(m));
    S s((O)m.order, (O)m.m); fill_ten(s, m, WG);
    std::string fn = name(r), fn2 = name(r); old_content(r, fn); old_content(r, fn2);
    set_threads(t); { guard::Scope g; s.save(fn); } map_state("save"); cmp_ten(read_ten(s, WG), m, "source after save"); s.free();
    check_len(fn, strlen(S::tensor_file_header) + (WG ? 3 : 2) + 2 * sizeof(O) + m.c.size() * sizeof(L) + m.w.size() * sizeof(W));
    std::string bytes = get_file(fn); set_threads(t2);
    load_any<T>(r, fn, pigo::PIGO_TENSOR_BIN, [&](T& d) { cmp_ten(read_ten(d, WG), m, "loaded"); { guard::Scope g; d.save(fn2); } if (r.chance(1, 2)) { guard::Scope g; d.save(fn); } });
    H_CHECK(get_file(fn2) == bytes, "resave", "a loaded object saves to a different file"); H_CHECK(get_file(fn) == bytes, "resave", "saving over the loaded file changed it");
    stat("entries_checked", m.m);
}
#define TYPES(fn) switch (rng.below(12)) { case 9: fn<u16, u8, 1, 0, double, true>(rng); break; case 10: fn<u8, u8, 0, 1, float, true>(rng); break; case 11: fn<u32, int16_t, 2, 1, i64, true>(rng, 40000); break; \
    case 0: fn<u32, u32, 0, 0, float, false>(rng); break; case 1: fn<u32, u32, 0, 1, float, true>(rng); break; \
    case 2: fn<u64, u64, 1, 0, double, true>(rng); break; case 3: fn<u32, u64, 1, 2, int, true>(rng); break; \
    case 4: fn<u16, u32, 2, 1, u8, true>(rng); break; case 5: fn<u64, u32, 2, 2, float, false>(rng); break; \
    case 6: fn<int, int64_t, 0, 2, int64_t, true>(rng); break; case 7: fn<u8, u16, 1, 1, int8_t, true>(rng); break; \
    default: fn<u32, u16, 0, 0, double, true>(rng); break; }
H_GROUP(coo) { TYPES(coo) }
H_GROUP(csr) { TYPES(csr) }
H_GROUP(digraph) { TYPES(dig) }
H_GROUP(tensor) { TYPES(ten) }
H_GROUP(large) { switch (rng.below(4)) { case 0: coo<u32, u64, 0, 1, double, true>(rng, 300000); break; case 1: csr<u32, u32, 1, 0, int, true>(rng, 300000); break; case 2: dig<u32, u32, 0, 0, float, false>(rng, 150000); break; default: ten<u64, u32, 0, 1, float, true>(rng, 100000); } }
// Objects as they come from text files, saved and loaded.
H_GROUP(loaded) {
    Noise nz(rng); auto v = gen_ents<int>(rng, rng.chance(1, 8) ? 0 : pick_count(rng, 2000), 20000, 20000, false, true); std::string s = render_el<int>(rng, v, true, false, nz);
    int t = pick_threads(rng), t2 = pick_threads(rng); observe(hash_str(s), t * 64 + t2); label("loaded threads=" + std::to_string(t) + "/" + std::to_string(t2) + " text=" + s.substr(0, 200));
    if (s.empty()) s = "# empty\n";
    std::string fn = new_file(s), out = tmp_name(), out2 = tmp_name(); set_threads(t);
    if (rng.chance(1, 2)) {
        typedef pigo::COO<u32, u32, std::vector<u32>, true, false, false, true, int, std::vector<int>> C; C c(fn); Mat a = read_coo(c, true); c.save(out); set_threads(t2); C d(out, pigo::PIGO_COO_BIN); cmp_mat(read_coo(d, true), a, "loaded"); d.save(out2); H_CHECK(get_file(out) == get_file(out2), "resave", "differs");
    } else {
        typedef pigo::WCSRPtr<u32, u32, int> C; C c(fn); Csr a = read_csr(c, true); c.save(out); set_threads(t2); C d(out); cmp_csr(read_csr(d, true), a, "loaded"); d.save(out2); H_CHECK(get_file(out) == get_file(out2), "resave", "differs"); c.free(); d.free();
    }
}
// More than 2^32 entries.
template<class P, class F> void with_data(P*& slot, void* data, F f) { P* own = slot; slot = (P*)data; try { f(); } catch (...) { slot = own; throw; } slot = own; }
template<class T, class F> void huge_obj(T& s, u64 total, const Rep& src, F check) {
    std::string fn = tmp_name(), fn2 = tmp_name(); size_t fl; { guard::Scope g; s.save(fn); } map_state("save"); const char* f = map_file(fn, fl); H_CHECK(fl > total && fl < total + 4000, "file-length", "file has %zu bytes for %llu labels", fl, (unsigned long long)total); size_t d = differ(f + (fl - total), src.p, total); std::string head(f, fl - total); munmap((void*)f, fl); H_CHECK(d == total, "saved", "label %zu of %llu differs in the file", d, (unsigned long long)total);
    Box<T> b(0x5a); { guard::Scope g; b.make(fn); } map_state("load"); unlink(fn.c_str()); check(b.get()); { guard::Scope g; b.get().save(fn2); } map_state("save"); b.get().free();
    f = map_file(fn2, fl); bool same = fl == head.size() + total && !memcmp(f, head.data(), head.size()); d = same ? differ(f + head.size(), src.p, total) : 0; munmap((void*)f, fl); H_CHECK(same && d == total, "resave", "a loaded object saves to a different file (%zu)", d); stat("entries_checked", total);
}
H_GROUP(huge) {
    const u64 m = (1ull << 32) + rng.range(1, 100000), G = 1ull << 30; if (!roomy(5 * G, 5 * G)) return; bool csr = st().cur % 2 == 0; int t = (int)rng.pick({5, 8, 16}); set_threads(t); observe(m, csr); Rep src(rng, m + 4, 200, 1); for (int k = 0; k < 40; ++k) src.p[rng.below(m)] ^= 1;
    if (csr) {
        typedef pigo::CSR<u8, u64, u8*, u64*> C; const u64 n = 200; label("compressed object of " + std::to_string(m) + " entries threads=" + std::to_string(t)); C s((u8)n, m, (u8)n, (u8)n); std::vector<u64> off(n + 1, 0); u64 big = rng.below(n); for (u64 v = 0; v < n; ++v) off[v + 1] = off[v] + (v == big ? m - 10 * (n - 1) : 10); std::copy(off.begin(), off.end(), s.offsets());
        with_data(s.endpoints(), src.p, [&] { huge_obj(s, m, src, [&](C& c) { H_CHECK((u64)c.m() == m && c.n() == n && c.nrows() == n && c.ncols() == n, "entry-count", "m=%llu n=%u", (unsigned long long)c.m(), (unsigned)c.n()); H_CHECK(!memcmp(c.offsets(), off.data(), 8 * (n + 1)), "offsets", "offsets differ"); size_t d = differ((const char*)c.endpoints(), src.p, m); H_CHECK(d == m, "row-entry", "endpoint %zu differs", d); }); }); s.free();
    } else {
        typedef pigo::Tensor<u8, u64, u8*, float, float*, false> T; u64 order = rng.range(1, 3), k = m / order + 1; label("tensor of order " + std::to_string(order) + " and " + std::to_string(k) + " entries threads=" + std::to_string(t)); T s(order, k);
        with_data(s.c(), src.p, [&] { huge_obj(s, k * order, src, [&](T& c) { H_CHECK((u64)c.m() == k && (u64)c.order() == order, "entry-count", "m=%llu order=%llu", (unsigned long long)c.m(), (unsigned long long)c.order()); size_t d = differ((const char*)c.c(), src.p, k * order); H_CHECK(d == k * order, "coordinate", "coordinate %zu differs", d); }); }); s.free();
    }
}
