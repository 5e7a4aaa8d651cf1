// C12: ASCII output is exact and re-readable.
#include "ten.hpp"
#include "num.hpp"
#include "guard.hpp"
#include "big.hpp"
using namespace h;
static void observe(u64 x, int t) { stat("evaluations"); seen("inputs", x ^ t); stat_max("threads", t); }

// Splits a line into fields separated by single spaces.
static bool fields(const std::string& l, std::vector<std::string>& o) {
    o.clear(); size_t p = 0; for (;;) { size_t q = l.find(' ', p); std::string f = l.substr(p, q == std::string::npos ? q : q - p); if (f.empty()) return false; o.push_back(f); if (q == std::string::npos) return true; p = q + 1; }
}
template<class T> std::string dec(T v) { if (std::is_signed<T>::value) { __int128 x = v; bool n = x < 0; if (n) x = -x; std::string s; do { s.insert(s.begin(), (char)('0' + (int)(x % 10))); x /= 10; } while (x); return (n ? "-" : "") + s; } return std::to_string((unsigned long long)v); }
template<class W, bool fl = std::is_floating_point<W>::value> struct WT {
    static void check(const std::string& s, W w, size_t e) { H_CHECK(s == dec(w), "weight-text", "entry %zu weight '%s' expected '%s'", e, s.c_str(), dec(w).c_str()); }
    static bool reread(W a, W b) { return a == b; }
    static W gen(Rng& r) { Ent e; WGen<W>::gen(r, e); return std::is_signed<W>::value ? (W)e.wi : (W)e.wu; }
};
template<class W> struct WT<W, true> {
    static void check(const std::string& s, W w, size_t e) { std::string why; H_CHECK(fp_text_ok(s.data(), s.size(), (double)w, &why), "weight-text", "entry %zu weight '%s' for %.17g: %s", e, s.c_str(), (double)w, why.c_str()); }
    static bool reread(W a, W b) { double t = (sizeof(W) == 4 ? 4e-6 : 1e-14) * std::fabs((double)a) + 5.1e-7; return std::fabs((double)a - (double)b) <= t; }
    static W gen(Rng& r) {
        double v; switch (r.below(8)) { case 0: v = (double)(int)r.below(20) - 10; break; case 1: v = (r.unit() - 0.5) * 2e-5; break; case 2: v = (r.unit() - 0.5) * 2; break; case 3: v = (r.unit() - 0.5) * 1e3; break;
            case 4: v = (r.unit() - 0.5) * std::pow(10., (int)r.below(14)); break; case 5: v = r.chance(1, 2) ? -0.0 : 0.0; break; case 6: v = (double)((i64)r.below(2000000) - 1000000) / 1e6; break; default: v = std::pow(10., (int)r.below(13)) - (r.chance(1, 2) ? 0 : r.pick({1e-7, 5e-7, 1e-6, 0.5, 1e-5})); }
        return (W)v;
    }
};
static std::vector<std::string> lines_of(const std::string& s, size_t want) {
    H_CHECK(!s.empty() && s.back() == '\n', "last-line", "output of %zu bytes does not end with a newline", s.size());
    H_CHECK(s.find('\0') == std::string::npos, "stray-byte", "zero byte at %zu", s.find('\0'));
    std::vector<std::string> o; size_t p = 0; while (p < s.size()) { size_t q = s.find('\n', p); o.push_back(s.substr(p, q - p)); p = q + 1; }
    H_CHECK(o.size() == want, "line-count", "%zu lines expected %zu", o.size(), want); return o;
}
static void pre(Rng& r, const std::string& fn) { if (r.chance(1, 3)) { stat("overwrites"); put_file(fn, std::string(r.pick<size_t>({1, 50, 4096, 200000}), '9')); } }
static void done(const char* what) { std::string e = guard::take_errors(); H_CHECK(e.empty() && guard::live_maps() == 0 && guard::open_streams() == 0, "mapping", "%s: %s live=%zu", what, e.c_str(), guard::live_maps()); }

template<class L, class O, int K, class W, bool WG> void coo(Rng& r, size_t cap = 3000) {
    typedef pigo::COO<L, O, Store<L, K>, false, false, false, WG, W, Store<W, K>> C;
    size_t n = std::max<size_t>(1, pick_count(r, std::min<u64>((u64)std::numeric_limits<O>::max() - 1, cap))); u64 ml = max_label<L>(); LabelGen gx(r, ml, true), gy(r, ml, true);
    Mat m; m.nr = m.nc = m.n = std::min<u64>(ml, 1000000); for (size_t i = 0; i < n; ++i) m.e.push_back({gx(r), gy(r), WG ? wbits<W>(WT<W>::gen(r)) : 0});
    int t = pick_threads(r); observe(hash_mat(m), t); label(std::string("coo ") + tname<L>() + "," + tname<O>() + (WG ? std::string(" w:") + tname<W>() : "") + " threads=" + std::to_string(t) + " " + desc(m));
    C c((L)m.n, (L)m.nr, (L)m.nc, (O)n); fill_coo(c, m, WG); std::string fn = tmp_name(); pre(r, fn); set_threads(t); { guard::Scope g; c.write(fn); } done("write");
    cmp_mat(read_coo(c, WG), m, "source after write");
    std::string s = get_file(fn); auto ls = lines_of(s, n); std::vector<std::string> f;
    for (size_t i = 0; i < n; ++i) {
        H_CHECK(fields(ls[i], f) && f.size() == (WG ? 3u : 2u), "fields", "line %zu is '%s'", i, ls[i].c_str());
        H_CHECK(f[0] == dec((L)m.e[i].x) && f[1] == dec((L)m.e[i].y), "coordinates", "line %zu is '%s' expected %llu %llu", i, ls[i].c_str(), (unsigned long long)m.e[i].x, (unsigned long long)m.e[i].y);
        if (WG) WT<W>::check(f[2], wfrom<W>(m.e[i].w), i);
    }
    stat("lines_checked", n); set_threads(pick_threads(r));
    C d(fn, pigo::EDGE_LIST); H_CHECK((size_t)d.m() == n, "reread-count", "read back %zu entries of %zu", (size_t)d.m(), n);
    for (size_t i = 0; i < n; ++i) { H_CHECK((u64)raw(d.x())[i] == m.e[i].x && (u64)raw(d.y())[i] == m.e[i].y, "reread", "entry %zu", i); if (WG) H_CHECK(WT<W>::reread(wfrom<W>(m.e[i].w), raw(d.w())[i]), "reread-weight", "entry %zu weight %s read back %s", i, wstr(wfrom<W>(m.e[i].w)).c_str(), wstr(raw(d.w())[i]).c_str()); }
    c.free(); d.free();
}
template<class L, class O, int K, class W, bool WG> void ten(Rng& r, size_t cap = 2000) {
    typedef pigo::Tensor<L, O, Store<L, K>, W, Store<W, K>, WG> T; size_t n = std::max<size_t>(1, pick_count(r, std::min<u64>((u64)std::numeric_limits<O>::max() - 1, cap)));
    Ten m = gen_ten<W>(r, n, r.range(1, 6), (u64)std::numeric_limits<L>::max(), false); if (WG) for (size_t i = 0; i < n; ++i) m.w.push_back(wbits<W>(WT<W>::gen(r)));
    int t = pick_threads(r); observe(hash_ten(m), t); label(std::string("tensor ") + tname<L>() + "," + tname<O>() + (WG ? std::string(" w:") + tname<W>() : "") + " threads=" + std::to_string(t) + " " + desc(m));
    T c((O)m.order, (O)n); fill_ten(c, m, WG); std::string fn = tmp_name(); pre(r, fn); set_threads(t); { guard::Scope g; c.write(fn); } done("write");
    cmp_ten(read_ten(c, WG), m, "source after write");
    std::string s = get_file(fn); auto ls = lines_of(s, n); std::vector<std::string> f;
    for (size_t i = 0; i < n; ++i) {
        H_CHECK(fields(ls[i], f) && f.size() == m.order + (WG ? 1 : 0), "fields", "line %zu is '%s'", i, ls[i].c_str());
        for (size_t k = 0; k < m.order; ++k) H_CHECK(f[k] == dec((L)m.c[i * m.order + k]), "coordinates", "line %zu is '%s'", i, ls[i].c_str());
        if (WG) WT<W>::check(f[m.order], wfrom<W>(m.w[i]), i);
    }
    stat("lines_checked", n); set_threads(pick_threads(r));
    T d(fn, pigo::EDGE_LIST); Ten got = read_ten(d, false); cmp_ten(got, Ten{m.order, m.m, m.c, {}}, "read back");
    if (WG) for (size_t i = 0; i < n; ++i) H_CHECK(WT<W>::reread(wfrom<W>(m.w[i]), raw(d.w())[i]), "reread-weight", "entry %zu weight %s read back %s", i, wstr(wfrom<W>(m.w[i])).c_str(), wstr(raw(d.w())[i]).c_str());
    c.free(); d.free();
}
#define TYPES(fn, ...) switch (rng.below(9)) { \
    case 0: fn<u32, u32, 0, float, false>(rng, ##__VA_ARGS__); break; case 1: fn<u32, u32, 0, float, true>(rng, ##__VA_ARGS__); break; case 2: fn<u64, u64, 1, double, true>(rng, ##__VA_ARGS__); break; \
    case 3: fn<u32, u64, 2, int, true>(rng, ##__VA_ARGS__); break; case 4: fn<u16, u32, 0, u8, true>(rng, ##__VA_ARGS__); break; case 5: fn<u64, u32, 1, i64, true>(rng, ##__VA_ARGS__); break; \
    case 6: fn<int, int64_t, 0, double, true>(rng, ##__VA_ARGS__); break; case 7: fn<u8, u16, 1, int8_t, true>(rng, ##__VA_ARGS__); break; default: fn<u64, u16, 2, u64, true>(rng, ##__VA_ARGS__); break; }
H_GROUP(coo) { TYPES(coo) }
H_GROUP(tensor) { TYPES(ten) }
H_GROUP(large) { if (rng.chance(1, 2)) coo<u32, u32, 0, float, true>(rng, 200000); else ten<u32, u32, 1, double, true>(rng, 100000); }
// More than 4 GiB of text.
H_GROUP(huge) {
    typedef pigo::Tensor<u8, u64, u8*, double, double*> T; const u64 m = 14200000 + rng.below(5000); if (!roomy(5ull << 30, 1ull << 30)) return; int t = (int)rng.pick({6, 8, 16}); label("tensor of " + std::to_string(m) + " long lines threads=" + std::to_string(t)); observe(m, t);
    T c(1, m); for (u64 i = 0; i < m; ++i) { c.c()[i] = (u8)(i % 251); c.w()[i] = 1e300 * (double)(1 + i % 7); } std::string lines[7]; const char* what[] = {"", ""}; (void)what;
    std::string fn = tmp_name(); set_threads(t); { guard::Scope g; c.write(fn); } done("write"); size_t n; const char* f = map_file(fn, n);
    // the texts of the seven weights, judged once
    u64 pos = 0; for (u64 i = 0; i < m; ++i) {
        std::string id = std::to_string(i % 251) + " "; size_t k = i % 7; if (lines[k].empty()) { const char* e = (const char*)memchr(f + pos, '\n', std::min<size_t>(n - pos, 2000)); H_CHECK(e, "line-count", "line %llu is not there", (unsigned long long)i); lines[k].assign(f + pos, e + 1); H_CHECK(lines[k].compare(0, id.size(), id) == 0, "coordinates", "line %llu", (unsigned long long)i); lines[k].erase(0, id.size()); std::string why; H_CHECK(fp_text_ok(lines[k].data(), lines[k].size() - 1, c.w()[i], &why), "weight-text", "line %llu: %s", (unsigned long long)i, why.c_str()); }
        H_CHECK(n - pos >= id.size() + lines[k].size() && !memcmp(f + pos, id.data(), id.size()) && !memcmp(f + pos + id.size(), lines[k].data(), lines[k].size()), "line", "line %llu at byte %llu of %zu is not what it should be", (unsigned long long)i, (unsigned long long)pos, n); pos += id.size() + lines[k].size();
    }
    munmap((void*)f, n); H_CHECK(pos == n, "line-count", "%zu bytes, expected %llu", n, (unsigned long long)pos); H_CHECK(n > (1ull << 32), "line-count", "only %zu bytes", n); for (u64 i = 0; i < m; ++i) H_CHECK(c.c()[i] == (u8)(i % 251) && c.w()[i] == 1e300 * (double)(1 + i % 7), "source", "entry %llu of the source changed", (unsigned long long)i);
    stat("lines_checked", m); stat("huge_bytes", n); c.free();
}
