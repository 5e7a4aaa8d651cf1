// One workload over the whole library whose observations are recorded as (tag, digest)
// pairs. Digests describe values, not types, so the same seed can be compared between
// thread counts, schedules, type and storage combinations, builds, and application
// threads. Stands alone and stays within C++11, so that it builds in every configuration.
#pragma once
#include "pigo.hpp"
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <fcntl.h>
#include <limits>
#include <memory>
#include <string>
#include <type_traits>
#include <unistd.h>
#include <utility>
#include <vector>

namespace ops {
typedef uint64_t u64; typedef uint32_t u32; typedef uint16_t u16; typedef uint8_t u8; typedef int64_t i64;
inline u64 mix(u64 x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
inline u64 hash_bytes(const void* p, size_t n) { u64 h = 1469598103934665603ull; const u8* b = (const u8*)p; for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 1099511628211ull; } return mix(h ^ n); }
struct Rng {
    u64 s; explicit Rng(u64 seed) : s(seed) {}
    u64 next() { s += 0x9e3779b97f4a7c15ull; return mix(s); }
    u64 below(u64 n) { return n ? next() % n : 0; }
    u64 range(u64 a, u64 b) { return a + below(b - a + 1); }
    bool chance(unsigned a, unsigned b) { return below(b) < a; }
};
typedef std::vector<std::pair<std::string, u64> > Log;
typedef void (*StepFn)(void*, unsigned);
// What to generate, where to put files, and what to call before every step.
struct Env {
    u64 seed; u64 maxl; size_t maxm; int wkind; std::string dir; StepFn step; void* arg; unsigned count;
    Env(u64 s, u64 ml, size_t mm, int wk, const std::string& d) : seed(s), maxl(ml), maxm(mm), wkind(wk), dir(d), step(0), arg(0), count(0) {}
    void next() { ++count; if (step) step(arg, count); }
};
struct E3 { u64 x, y; i64 w; bool operator<(const E3& o) const { return x != o.x ? x < o.x : y != o.y ? y < o.y : w < o.w; } };

template<class T> T* raw(T* p) { return p; }
template<class T> T* raw(std::vector<T>& v) { return v.data(); }
template<class T> T* raw(std::shared_ptr<T>& v) { return v.get(); }
template<class T, int K> struct StoreT; template<class T> struct StoreT<T, 0> { typedef T* type; }; template<class T> struct StoreT<T, 1> { typedef std::vector<T> type; }; template<class T> struct StoreT<T, 2> { typedef std::shared_ptr<T> type; };

inline std::string read_all(const std::string& fn) { std::string s; int fd = open(fn.c_str(), O_RDONLY); if (fd < 0) return "missing"; char b[65536]; ssize_t r; while ((r = ::read(fd, b, sizeof b)) > 0) s.append(b, (size_t)r); close(fd); return s; }
inline void put(const std::string& fn, const std::string& s) { int fd = open(fn.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); size_t o = 0; while (fd >= 0 && o < s.size()) { ssize_t r = ::write(fd, s.data() + o, s.size() - o); if (r <= 0) break; o += (size_t)r; } if (fd >= 0) close(fd); }

// ---- digests ----
inline u64 fold(u64 h, u64 v) { return mix(h ^ v) + 0x51ed27; }
inline u64 dig(std::vector<E3>& v, bool canon) { if (canon) std::sort(v.begin(), v.end()); u64 h = v.size(); for (size_t i = 0; i < v.size(); ++i) h = fold(fold(fold(h, v[i].x), v[i].y), (u64)v[i].w); return h; }
template<class W> i64 wq(W w) { return (i64)((double)w * 64.0); }
template<class C, bool WG> struct CooW { static i64 get(C& c, size_t i) { return wq(raw(c.w())[i]); } };
template<class C> struct CooW<C, false> { static i64 get(C&, size_t) { return 0; } };
template<class C, bool WG> struct CsrW { static i64 get(C& c, size_t i) { return wq(raw(c.weights())[i]); } };
template<class C> struct CsrW<C, false> { static i64 get(C&, size_t) { return 0; } };
template<bool WG, class C> u64 dig_coo(C& c, bool canon = false) {
    std::vector<E3> v((size_t)c.m()); for (size_t i = 0; i < v.size(); ++i) { v[i].x = (u64)raw(c.x())[i]; v[i].y = (u64)raw(c.y())[i]; v[i].w = CooW<C, WG>::get(c, i); }
    return fold(fold(fold(fold(dig(v, canon), (u64)c.n()), (u64)c.nrows()), (u64)c.ncols()), (u64)c.m());
}
template<bool WG, class C> u64 dig_csr(C& c, bool canon = false) {
    u64 rows = std::max((u64)c.n(), (u64)c.nrows()), m = (u64)c.m(), h = 7; std::vector<E3> v; v.reserve((size_t)m);
    for (u64 r = 0; r < rows; ++r) { u64 a = (u64)raw(c.offsets())[r], b = (u64)raw(c.offsets())[r + 1]; h = fold(h, a); if (b > m || a > b) return fold(0xbad0ff5e7ull, r); for (u64 k = a; k < b; ++k) { E3 e; e.x = r; e.y = (u64)raw(c.endpoints())[k]; e.w = CsrW<C, WG>::get(c, (size_t)k); v.push_back(e); } }
    h = fold(h, rows ? (u64)raw(c.offsets())[rows] : 0);
    return fold(fold(fold(fold(fold(h, dig(v, canon)), (u64)c.n()), (u64)c.nrows()), (u64)c.ncols()), m);
}
template<bool WG, class T> struct TenW { static u64 get(T& t) { u64 h = 3; for (size_t i = 0; i < (size_t)t.m(); ++i) h = fold(h, (u64)wq(raw(t.w())[i])); return h; } };
template<class T> struct TenW<false, T> { static u64 get(T&) { return 0; } };
template<bool WG, class T> u64 dig_ten(T& t) { u64 h = fold((u64)t.order(), (u64)t.m()); for (size_t i = 0; i < (size_t)t.m() * (size_t)t.order(); ++i) h = fold(h, (u64)raw(t.c())[i]); return fold(h, TenW<WG, T>::get(t)); }

// ---- models ----
struct Model { std::vector<E3> e; u64 nr, nc; };
inline i64 wof(const Env& v, u64 x, u64 y) { u64 h = mix(x * 0x10001 + y * 77 + v.seed); if (v.wkind == 0) return (i64)(h % 121) * 64;
    if (v.wkind == 1) return ((i64)(h % 241) - 120) * 64;
    return ((i64)(h % 4001) - 2000) * 16; }  // in 64ths
inline std::string wtext(i64 w) { std::string s; if (w < 0) { s = "-"; w = -w; } s += std::to_string(w / 64); if (w % 64) { static const char* q[] = {"", ".25", ".5", ".75"}; s += q[(w % 64) / 16]; } return s; }
inline Model make(const Env& v, Rng& r) {
    Model m; u64 d = v.maxl; switch (r.below(4)) { case 0: d = std::min<u64>(d, 1 + r.below(12)); break; case 1: d = std::min<u64>(d, 1 + r.below(90)); break; default: d = 1 + r.below(d); }
    m.nr = d; m.nc = r.chance(1, 2) ? d : std::min<u64>(v.maxl, 1 + r.below(2 * d)); size_t n; switch (r.below(8)) { case 0: n = r.below(3); break; case 1: case 2: n = r.below(12); break; case 3: case 4: n = r.below(60); break; default: n = r.below(v.maxm); }
    n = std::min(n, v.maxm); u64 hot = r.below(m.nr); bool dups = r.chance(1, 3); unsigned kind = (unsigned)r.below(4);
    for (size_t i = 0; i < n; ++i) { E3 e; e.x = kind == 0 ? hot : kind == 1 && r.chance(1, 2) ? hot : r.below(m.nr); e.y = r.chance(1, 7) ? std::min(e.x, m.nc - 1) : r.below(m.nc); if (dups && i && r.chance(1, 2)) { size_t j = (size_t)r.below(i); e.x = m.e[j].x; e.y = m.e[j].y; } e.w = wof(v, e.x, e.y); m.e.push_back(e); }
    return m;
}
struct Text { Rng r; bool noise, crlf, tail; Text(Rng& g) : r(g.next()) { noise = r.chance(1, 2); crlf = r.chance(1, 6); tail = r.chance(2, 3); }
    void fill(std::string& o) { if (!noise) return; while (r.chance(1, 6)) { switch (r.below(4)) { case 0: o += "\n"; break; case 1: o += "# note 12 7"; o += crlf ? "\r\n" : "\n"; break; case 2: o += "% 9"; o += crlf ? "\r\n" : "\n"; break; default: o += crlf ? "\r\n" : "\n"; } } }
    void end(std::string& o, bool last) { if (!last || tail) { o += crlf ? "\r\n" : "\n"; fill(o); } } };
inline std::string el_text(const Model& m, bool wg, Rng& g) {
    Text t(g); std::string o; t.fill(o); if (m.e.empty()) o += "# nothing\n";
    for (size_t i = 0; i < m.e.size(); ++i) { o += std::to_string(m.e[i].x); o += t.noise && t.r.chance(1, 4) ? "\t" : " "; o += std::to_string(m.e[i].y); if (wg) { o += " "; o += wtext(m.e[i].w); } if (t.noise && t.r.chance(1, 8)) o += " # 5 6"; t.end(o, i + 1 == m.e.size()); }
    return o;
}

template<class L, class O, int K, class W, bool WG> struct Ops {
    typedef typename StoreT<L, K>::type S; typedef typename StoreT<O, K>::type OS; typedef typename StoreT<W, K>::type WS;
    template<bool a, bool b, bool c> struct CT { typedef pigo::COO<L, O, S, a, b, c, WG, W, WS> type; };
    typedef typename CT<false, false, false>::type C; typedef typename CT<true, false, false>::type CS; typedef typename CT<true, true, false>::type CU;
    typedef pigo::CSR<L, O, S, OS, WG, W, WS> R; typedef pigo::DiGraph<L, O, S, OS, WG, W, WS> D; typedef pigo::Matrix<L, O, S, OS, WG, W, WS> M; typedef pigo::BaseGraph<L, O, S, OS, WG, W, WS> G;
    typedef pigo::Tensor<L, O, S, W, WS, WG> T;
    typedef pigo::COO<u64, u64, std::vector<u64>, false, false, false, WG, double, std::vector<double> > C2; typedef pigo::COO<u64, u64, std::vector<u64>, true, false, false, WG, double, std::vector<double> > CS2; typedef pigo::CSR<u64, u64, std::vector<u64>, std::vector<u64>, WG, double, std::vector<double> > R2;
    Env& v; Log& log; Rng g; unsigned fno; std::vector<std::string> made; std::string sizes, fp;
    Ops(Env& e, Log& l, u64 salt) : v(e), log(l), g(mix(e.seed ^ salt * 0x9e37)), fno(0) {
        sizes = "[" + std::to_string(sizeof(L)) + "," + std::to_string(sizeof(O)) + "," + (WG ? std::to_string(sizeof(W)) + (std::is_floating_point<W>::value ? "f" : "i") : std::string("-")) + "]";
        fp = WG ? std::is_floating_point<W>::value ? ".fp" : ".int" : "";
    }
    ~Ops() { for (size_t i = 0; i < made.size(); ++i) unlink(made[i].c_str()); }
    std::string name(const char* suf = "") { char b[64]; snprintf(b, sizeof b, "/o%u%s", fno++, suf); made.push_back(v.dir + b); return made.back(); }
    std::string file(const std::string& s, const char* suf = "") { std::string f = name(suf); put(f, s); return f; }
    void add(const std::string& t, u64 d) { log.push_back(std::make_pair(t, d)); }
    u64 bytes(const std::string& f) { std::string s = read_all(f); return hash_bytes(s.data(), s.size()); }
    C filled(const Model& m) { v.next(); u64 n = std::max(m.nr, m.nc); C c((L)n, (L)m.nr, (L)m.nc, (O)m.e.size()); for (size_t i = 0; i < m.e.size(); ++i) { raw(c.x())[i] = (L)m.e[i].x; raw(c.y())[i] = (L)m.e[i].y; if (WG) raw(c.w())[i] = (W)((double)m.e[i].w / 64.0); } return c; }
    template<class X> void load_coo(const char* tag, const std::string& f, pigo::FileType ft) { v.next(); X c(f, ft); add(tag, dig_coo<WG>(c)); c.free(); }
    template<class F> void err(const char* tag, F f) { v.next(); int k; try { f(); k = 0; } catch (pigo::NotYetImplemented&) { k = 2; } catch (pigo::Error&) { k = 1; } catch (std::exception&) { k = 3; } add(tag, (u64)k); }

    void coo_text() {
        Model m = make(v, g); std::string f = file(el_text(m, WG, g));
        { v.next(); C c(f); add("el", dig_coo<WG>(c)); c.free(); }
        { v.next(); pigo::ROFile r(f); C c(r, pigo::EDGE_LIST); add("el", dig_coo<WG>(c)); c.free(); }
        { v.next(); R c(f); add("el.csr", dig_csr<WG>(c, true)); v.next(); c.sort(); add("el.csr.sorted", dig_csr<WG>(c)); c.free(); }
    }
    void options() {
        Model m = make(v, g); if (m.e.empty()) { E3 e = {0, 0, wof(v, 0, 0)}; m.e.push_back(e); } std::string f = file(el_text(m, WG, g));
        load_coo<typename CT<true, false, false>::type>("el.s", f, pigo::AUTO); load_coo<typename CT<true, true, false>::type>("el.su", f, pigo::AUTO); load_coo<typename CT<false, true, false>::type>("el.u", f, pigo::AUTO); load_coo<typename CT<false, false, true>::type>("el.l", f, pigo::AUTO);
        load_coo<typename CT<true, false, true>::type>("el.sl", f, pigo::AUTO); load_coo<typename CT<true, true, true>::type>("el.sul", f, pigo::AUTO); load_coo<typename CT<false, true, true>::type>("el.ul", f, pigo::AUTO);
    }
    std::string mm_text(const Model& m, u64 nr, u64 nc, u64 cnt) { std::string s = "%%MatrixMarket matrix coordinate "; s += WG ? "real" : "pattern"; s += " general\n% a comment\n" + std::to_string(nr) + " " + std::to_string(nc) + " " + std::to_string(cnt) + "\n"; s += el_text(m, WG, g); return s; }
    void mm() {
        Model m = make(v, g); u64 nr = m.nr + g.below(3), nc = m.nc + g.below(3); std::string f = file(mm_text(m, nr, nc, m.e.size()), ".mtx");
        load_coo<C>("mm", f, pigo::AUTO); load_coo<CS>("mm.s", f, pigo::MATRIX_MARKET); load_coo<CU>("mm.su", f, pigo::AUTO);
        { v.next(); R c(f); add("mm.csr", dig_csr<WG>(c, true)); c.free(); }
        std::string b1 = file(mm_text(m, nr, nc, m.e.size() + 1), ".mtx"); err("mm.more", [&]() { C c(b1); c.free(); });
        if (!m.e.empty()) { std::string b2 = file(mm_text(m, nr, nc, m.e.size() - 1), ".mtx"); err("mm.fewer", [&]() { C c(b2); c.free(); }); u64 mx = 0; for (size_t i = 0; i < m.e.size(); ++i) mx = std::max(mx, m.e[i].x); if (mx) { std::string b3 = file(mm_text(m, mx - 1, nc, m.e.size()), ".mtx"); err("mm.rows", [&]() { C c(b3); c.free(); }); } }
    }
    void graph() {
        Model m = make(v, g); u64 n = m.nr; for (size_t i = 0; i < m.e.size(); ++i) m.e[i].y %= n; bool zero = g.chance(1, 2); E3 z = {g.below(n), 0, 0}; m.e.push_back(z);
        std::vector<std::vector<u64> > rows((size_t)n); for (size_t i = 0; i < m.e.size(); ++i) rows[(size_t)m.e[i].x].push_back(m.e[i].y + !zero);
        Text t(g); std::string s = "% adjacency\n"; if (g.chance(1, 3)) s += "# more\n"; s += std::to_string(n) + " " + std::to_string(m.e.size()) + (g.chance(1, 3) ? " 0\n" : "\n");
        for (size_t i = 0; i < rows.size(); ++i) { if (t.noise && t.r.chance(1, 7)) s += "# 4 5\n"; for (size_t k = 0; k < rows[i].size(); ++k) s += std::to_string(rows[i][k]) + " "; if (i + 1 < rows.size() || t.tail) s += t.crlf ? "\r\n" : "\n"; else if (rows[i].empty()) s += " "; }
        std::string f = file(s, ".graph");
        if (WG) { err("graph.weighted", [&]() { R c(f); c.free(); }); return; }
        { v.next(); R c(f); add("graph", dig_csr<WG>(c)); v.next(); C x(c); add("graph.coo", dig_coo<WG>(x)); x.free(); v.next(); c.sort(); add("graph.sorted", dig_csr<WG>(c)); std::string q = name(); v.next(); c.save(q); add("graph.save" + sizes, bytes(q)); c.free(); }
        { v.next(); C c(f); add("graph.coo", dig_coo<WG>(c)); c.free(); } { v.next(); CS c(f); add("graph.s", dig_coo<WG>(c)); c.free(); } { v.next(); CU c(f); add("graph.su", dig_coo<WG>(c)); c.free(); }
        { v.next(); D d(f); add("graph.out", dig_csr<WG>(d.out(), true)); add("graph.in", dig_csr<WG>(d.in(), true)); d.free(); }
        std::string b1 = file(std::to_string(n + 3) + " " + std::to_string(m.e.size()) + "\n" + s.substr(s.find('\n', s.find('\n') + 1) + 1), ".graph"); err("graph.bad", [&]() { R c(b1); c.free(); });
    }
    void csr() {
        Model m = make(v, g); C c = filled(m); v.next(); R r(c); add("csr", dig_csr<WG>(r, true)); add("csr.src", dig_coo<WG>(c));
        { v.next(); R2 a(c); add("csr", dig_csr<WG>(a, true)); a.free(); } c.free();
        v.next(); r.sort(); add("csr.sorted", dig_csr<WG>(r));
        { v.next(); R d = r.new_csr_without_dups(); add("csr.unique", dig_csr<WG>(d)); std::string f = name(); v.next(); d.save(f); add("csr.unique.save" + sizes, bytes(f)); d.free(); }
        { v.next(); R2 d = r.template new_csr_without_dups<u64, u64, std::vector<u64>, std::vector<u64>, WG, double, std::vector<double> >(); add("csr.unique", dig_csr<WG>(d)); d.free(); }
        std::string f = name(); v.next(); r.save(f); add("csr.save" + sizes, bytes(f)); r.free(); { v.next(); R b(f); add("csr.sorted", dig_csr<WG>(b)); b.free(); } { v.next(); C b(f); add("csr.coo", dig_coo<WG>(b)); b.free(); }
    }
    void convert() {
        Model m = make(v, g); C c = filled(m); v.next(); R r(c); c.free(); v.next(); r.sort();
        { v.next(); C a(r); add("coo.of", dig_coo<WG>(a)); a.free(); } { v.next(); CS a(r); add("coo.s", dig_coo<WG>(a)); a.free(); } { v.next(); CU a(r); add("coo.su", dig_coo<WG>(a)); a.free(); }
        { v.next(); C2 a(r); add("coo.of", dig_coo<WG>(a)); v.next(); R b(a); v.next(); b.sort(); add("coo.back", dig_csr<WG>(b)); b.free(); a.free(); } { v.next(); CS2 a(r); add("coo.s", dig_coo<WG>(a)); a.free(); }
        err("coo.ut", [&]() { typename CT<false, true, false>::type a(r); a.free(); });
        r.free();
    }
    void binary() {
        Model m = make(v, g); C c = filled(m); std::string f = name(); v.next(); c.save(f); add("save" + sizes, bytes(f));
        { v.next(); C b(f); add("saved", dig_coo<WG>(b)); std::string f2 = name(); v.next(); b.save(f2); add("save" + sizes, bytes(f2)); b.free(); } { v.next(); R b(f); add("saved.csr", dig_csr<WG>(b, true)); b.free(); } { pigo::ROFile r(f); v.next(); C b(r, pigo::PIGO_COO_BIN); add("saved", dig_coo<WG>(b)); b.free(); }
        std::string t = read_all(f), cut = file(t.substr(0, t.size() - 1)); err("saved.cut", [&]() { C b(cut); b.free(); });
        err("saved.kind", [&]() { R b(f, pigo::PIGO_CSR_BIN); b.free(); });
        c.free();
    }
    void text() {
        Model m = make(v, g); if (m.e.empty()) { E3 e = {0, 0, wof(v, 0, 0)}; m.e.push_back(e); } C c = filled(m); std::string f = name(); v.next(); c.write(f); add("write" + fp, bytes(f));
        { v.next(); C b(f); add("written", dig_coo<WG>(b)); b.free(); } { v.next(); CS b(f); add("written.s", dig_coo<WG>(b)); b.free(); } c.free();
    }
    void digraph() {
        Model m = make(v, g); C c = filled(m); { v.next(); D d(c); views(d.out(), d.in(), "di"); std::string f = name(); v.next(); d.save(f); add("di.save" + sizes, bytes(f)); v.next(); D b(f); add("di.back.out", dig_csr<WG>(b.out())); add("di.back.in", dig_csr<WG>(b.in())); add("di.n", fold(fold((u64)b.n(), (u64)b.m()), fold((u64)b.nrows(), (u64)b.ncols()))); u64 h = 0; for (u64 x = 0; x < (u64)b.out().n(); ++x) { u64 s = 0; for (L y : b.out().neighbors((L)x)) s = fold(s, (u64)y); h = fold(h, fold(s, (u64)b.out().degree((L)x))); } add("di.iter", h); b.free(); d.free(); }
        std::string f = file(el_text(m, WG, g)); if (!m.e.empty()) { v.next(); D d(f); views(d.out(), d.in(), "di.el"); d.free(); } c.free();
    }
    template<class A, class B> void views(A& a, B& b, const char* t) { std::string s(t); add(s + ".a", dig_csr<WG>(a, true)); add(s + ".b", dig_csr<WG>(b, true)); v.next(); a.sort(); v.next(); b.sort(); add(s + ".as", dig_csr<WG>(a)); add(s + ".bs", dig_csr<WG>(b)); }
    void matrix() {
        Model m = make(v, g); C c = filled(m); { v.next(); M d(c); views(d.csr(), d.csc(), "mat"); add("mat.n", fold((u64)d.nrows(), (u64)d.ncols())); d.free(); } { std::string f = name(); v.next(); c.save(f); v.next(); M d(f); views(d.csr(), d.csc(), "mat"); d.free(); }
        { v.next(); G q(c); u64 h = 0; v.next(); q.sort(); for (u64 x = 0; x < (u64)q.n(); ++x) { u64 s = 0; for (L y : q.neighbors((L)x)) s = fold(s, (u64)y); h = fold(h, fold(s, fold((u64)q.neighbor_start((L)x), (u64)q.neighbor_end((L)x)))); } add("graph.iter", h); q.free(); } c.free();
    }
    void tensor() {
        u64 order = g.range(1, 5); size_t n = 1 + (size_t)g.below(std::max<size_t>(1, v.maxm / order)); Text t(g); std::string s; t.fill(s);
        for (size_t i = 0; i < n; ++i) { u64 a = 0; for (u64 k = 0; k < order; ++k) { u64 c = g.below(v.maxl); if (k) s += " "; s += std::to_string(c); a = mix(a ^ c) % 100; } if (WG) s += " " + wtext(wof(v, a, i % 7)); t.end(s, i + 1 == n); }
        std::string f = file(s); v.next(); T x(f); add("ten", dig_ten<WG>(x)); v.next(); std::vector<L> mx = x.max_labels(); u64 h = mx.size(); for (size_t i = 0; i < mx.size(); ++i) h = fold(h, (u64)mx[i]); add("ten.max", h);
        { T y(x); std::string q = name(); v.next(); y.save(q); add("ten.save" + sizes, bytes(q)); v.next(); T z(q); add("ten", dig_ten<WG>(z)); z.free(); y.free(); } { std::string q = name(); v.next(); x.write(q); add("ten.write" + fp, bytes(q)); v.next(); T z(q); add("ten", dig_ten<WG>(z)); z.free(); } x.free();
    }
    void find() {
        size_t n = 1 + (size_t)g.below(v.maxm <= 50 ? 120 : v.maxm * 3); std::string s; for (size_t i = 0; i < n; ++i) s += (char)("\nab\0"[g.below(4)]); std::string f = file(s); pigo::ROFile r(f); u64 at = g.below(n); r.seek(at); pigo::FileReader rd = r.reader(); char ch = "\nab\0"[g.below(4)];
        { v.next(); pigo::Tensor<u64, u64> t = rd.find_offsets<pigo::Tensor<u64, u64> >(ch); u64 h = (u64)t.m(); for (u64 i = 0; i < (u64)t.m(); ++i) h = fold(h, t.c()[i]); add("find", h); t.free(); }
        { typedef pigo::Tensor<L, O, S, W, WS, false> TT; v.next(); TT t = rd.find_offsets<TT>(ch); u64 h = (u64)t.m(); for (u64 i = 0; i < (u64)t.m(); ++i) h = fold(h, (u64)raw(t.c())[i]); add("find", h); t.free(); }
    }
    void files() {
        size_t n = 1 + (size_t)g.below(v.maxm * 9); std::string s; for (size_t i = 0; i < n; ++i) s += (char)g.next(); std::string f = name(), a = s; size_t cut = (size_t)g.below(n + 1); u64 k = g.next();
        { v.next(); pigo::WFile w(f, n + 13); w.write(std::string("head")); w.write((u8)k); w.parallel_write(&a[0], cut); w.write((u64)k); w.parallel_write(&a[0] + cut, n - cut); } add("file", bytes(f));
        { v.next(); pigo::ROFile r(f); r.read("head"); u64 h = r.read<u8>(); std::string b(n, 'x'); r.parallel_read(&b[0], cut); h = fold(h, r.read<u64>()); r.parallel_read(&b[0] + cut, n - cut); add("file.back", fold(h, hash_bytes(b.data(), b.size()))); err("file.past", [&]() { r.read<u8>(); }); r.seek(2); add("file.seek", (u64)r.read<u8>()); add("file.type", (u64)r.guess_file_type()); }
        err("file.none", [&]() { C c(v.dir + "/absent"); c.free(); }); std::string e = file(""); err("file.empty", [&]() { C c(e); c.free(); });
    }
    void copies() {
        Model m = make(v, g); C c = filled(m); { v.next(); C a(c); add("copy", dig_coo<WG>(a)); v.next(); a.transpose(); add("transpose", dig_coo<WG>(a)); add("copy", dig_coo<WG>(c)); C b(c); b = a; add("transpose", dig_coo<WG>(b)); a.transpose(); add("copy", dig_coo<WG>(a)); a.free(); v.next(); R r(b); add("transpose.csr", dig_csr<WG>(r, true)); r.free(); b.free(); } c.free();
    }
    enum { GROUPS = 14 };
    void run(unsigned k) {
        switch (k % GROUPS) { case 0: coo_text(); break; case 1: options(); break; case 2: mm(); break; case 3: graph(); break; case 4: csr(); break; case 5: convert(); break; case 6: binary(); break; case 7: text(); break; case 8: digraph(); break; case 9: matrix(); break; case 10: tensor(); break; case 11: find(); break; case 12: files(); break; default: copies(); }
    }
};
inline const char* group_name(unsigned k) { static const char* n[] = {"coo_text", "options", "mm", "graph", "csr", "convert", "binary", "text", "digraph", "matrix", "tensor", "find", "files", "copies"}; return n[k % 14]; }
// Runs one group (salted by it) and returns its observations; an exception is one as well.
template<class L, class O, int K, class W, bool WG> Log run_one(Env& v, unsigned k) {
    Log l; v.count = 0; Ops<L, O, K, W, WG> o(v, l, k % 14 + 1);
    try { o.run(k); } catch (std::exception& e) { std::string s = e.what(); l.push_back(std::make_pair("exception:" + s, hash_bytes(s.data(), s.size()))); }
    return l;
}
// A tag without the part naming the format of the bytes it digests.
inline std::string plain_tag(const std::string& t) { size_t p = t.find('['); if (p == std::string::npos) p = t.find(".fp"); if (p == std::string::npos) p = t.find(".int"); return t.compare(0, 10, "exception:") == 0 ? t : t.substr(0, p); }
// First difference between two recordings of the same steps.
inline std::string diff(const Log& a, const Log& b) {
    for (size_t i = 0; i < a.size() || i < b.size(); ++i) {
        if (i >= a.size()) return "extra step " + b[i].first;
        if (i >= b.size()) return "missing step " + a[i].first;
        if (a[i].first != b[i].first) { if (plain_tag(a[i].first) != plain_tag(b[i].first)) return "step " + a[i].first + " became " + b[i].first; continue; }  // bytes in another format
        if (a[i].second != b[i].second) return "step " + std::to_string(i) + " " + a[i].first + " differs";
    }
    return "";
}
} // namespace ops
