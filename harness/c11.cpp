// C11: incompatible or truncated binary files are rejected.
#include "ten.hpp"
#include "guard.hpp"
using namespace h;

enum Kind { KCOO, KCSR, KDIG, KTEN };
static const char* kname[] = {"coo", "csr", "digraph", "tensor"};
static const pigo::FileType kft[] = {pigo::PIGO_COO_BIN, pigo::PIGO_CSR_BIN, pigo::PIGO_DIGRAPH_BIN, pigo::PIGO_TENSOR_BIN};
static std::string header(int k) { return k == KCOO ? pigo::COO<>::coo_file_header : k == KCSR ? pigo::CSR<>::csr_file_header : k == KDIG ? pigo::DiGraph<>::digraph_file_header : pigo::Tensor<>::tensor_file_header; }

// Bytes of a saved object of each kind.
template<class L, class O, class W, bool WG> std::string saved(Rng& r, int k, size_t cap, std::string* d) {
    std::string fn = tmp_name();
    u64 maxl = std::min<u64>(max_label<L>() - 4, 2000); size_t n = r.chance(1, 8) ? 0 : 1 + r.below(cap);
    if (k == KTEN) { Ten m = gen_ten<W>(r, n, r.range(1, 4), maxl, WG); pigo::Tensor<L, O, std::vector<L>, W, std::vector<W>, WG> t((O)m.order, (O)m.m); fill_ten(t, m, WG); t.save(fn); *d = desc(m); }
    else {
        Mat m = gen_mat<W>(r, n, std::min<u64>(maxl, 1 + r.below(60)), WG); *d = desc(m);
        pigo::COO<L, O, std::vector<L>, false, false, false, WG, W, std::vector<W>> c((L)m.n, (L)m.nr, (L)m.nc, (O)m.e.size()); fill_coo(c, m, WG);
        if (k == KCOO) c.save(fn);
        else if (k == KCSR) { pigo::CSR<L, O, std::vector<L>, std::vector<O>, WG, W, std::vector<W>> s(c); s.save(fn); }
        else { pigo::DiGraph<L, O, std::vector<L>, std::vector<O>, WG, W, std::vector<W>> s(c); s.save(fn); }
    }
    return get_file(fn);
}
// Loads fn as kind k, by class and entry point. Throws what the library throws.
template<class C, class F> void make(F& f, const std::string& fn, pigo::FileType ft, int how, int pat) {
    Box<C> b(pat); guard::Scope g;
    if (how == 0) b.make(fn, ft); else if (how == 1) b.make(fn); else { pigo::File fl(fn, pigo::READ); if (how == 2) b.make(fl, ft); else b.make(fl, pigo::AUTO); }
    f(b.get());
}
struct Drop { template<class T> void operator()(T& t) { t.free(); } };
template<class L, class O, int K, class W, bool WG> void load(Rng& r, int k, const std::string& fn, pigo::FileType ft, int how) {
    Drop d; int pat = pick_pattern(r);
    typedef Store<L, K> SL; typedef Store<O, K> SO; typedef Store<W, K> SW;
    switch (k) {
        case KCOO: if (ft == pigo::PIGO_COO_BIN && r.chance(1, 4)) make<pigo::CSR<L, O, SL, SO, WG, W, SW>>(d, fn, ft, how, pat); else make<pigo::COO<L, O, SL, false, false, false, WG, W, SW>>(d, fn, ft, how, pat); break;
        case KCSR: if (ft == pigo::PIGO_CSR_BIN && r.chance(1, 4)) make<pigo::COO<L, O, SL, false, false, false, WG, W, SW>>(d, fn, ft, how, pat); else make<pigo::CSR<L, O, SL, SO, WG, W, SW>>(d, fn, ft, how, pat); break;
        case KDIG: make<pigo::DiGraph<L, O, SL, SO, WG, W, SW>>(d, fn, ft, how, pat); break;
        default: make<pigo::Tensor<L, O, SL, W, SW, WG>>(d, fn, ft, how, pat); break;
    }
}
template<class L, class O, class W, bool WG> void load_t(Rng& r, int k, const std::string& fn, pigo::FileType ft, int how) { if (r.chance(1, 2)) load<L, O, 0, W, WG>(r, k, fn, ft, how); else load<L, O, 1, W, WG>(r, k, fn, ft, how); }
template<class F> void rejects(F f, const std::string& what) {
    try { f(); } catch (CaseFail&) { throw; } catch (std::exception&) { stat("rejections"); return; }
    fail("accepted", "%s: an object was returned", what.c_str());
}
static void observe(const std::string& b, int t, const std::string& what) { stat("evaluations"); seen("inputs", hash_str(b) ^ mix(hash_str(what)) ^ t); stat_max("threads", t); }

template<class L, class O, class W, bool WG> void trunc(Rng& r, size_t cap) {
    int k = (int)r.below(4); std::string d; set_threads(1); std::string b = saved<L, O, W, WG>(r, k, cap, &d);
    int t = pick_threads(r); set_threads(t); std::string base = std::string("truncated ") + kname[k] + " " + tname<L>() + "," + tname<O>() + (WG ? tname<W>() : "") + " threads=" + std::to_string(t) + " " + d;
    label(base);
    { std::string fn = new_file(b); load_t<L, O, W, WG>(r, k, fn, kft[k], 0); }     // the complete file loads
    std::vector<size_t> lens;
    if (b.size() < 400) for (size_t i = 0; i < b.size(); ++i) lens.push_back(i);
    else { for (size_t i = 0; i < 80; ++i) lens.push_back(i); for (size_t i = 1; i < 20; ++i) lens.push_back(b.size() - i); for (size_t i = 4096; i < b.size(); i += 4096) lens.push_back(i); for (int i = 0; i < 60; ++i) lens.push_back(r.below(b.size())); }
    std::string fn = tmp_name();
    for (size_t n : lens) {
        put_file(fn, b.substr(0, n)); int how = (int)r.below(4);
        if ((how == 1 || how == 3) && n < header(k).size()) how = 0;        // no header left to detect
        label(base + " cut to " + std::to_string(n) + " of " + std::to_string(b.size()) + " entry " + std::to_string(how)); observe(b, t, std::to_string(n) + "t");
        rejects([&] { load_t<L, O, W, WG>(r, k, fn, kft[k], how); }, "truncated"); stat("truncations");
    }
}
#define TYPES(call) switch (rng.below(6)) { \
    case 0: call(u32, u32, float, false); break; case 1: call(u32, u32, float, true); break; case 2: call(u64, u64, double, true); break; \
    case 3: call(u32, u64, int, true); break; case 4: call(u16, u32, u8, true); break; default: call(u64, u32, float, false); break; }
#define TR(L, O, W, G) trunc<L, O, W, G>(rng, 10)
#define TRB(L, O, W, G) trunc<L, O, W, G>(rng, 3000)
H_GROUP(truncated) { TYPES(TR) }
H_GROUP(truncated_large) { TYPES(TRB) }

template<class L, class O, class W, bool WG> void kinds(Rng& r) {
    int k = (int)r.below(4), k2 = (int)r.below(4); if (k2 == k) k2 = (k + 1) % 4;
    std::string d; set_threads(1); std::string b = saved<L, O, W, WG>(r, k, 30, &d); int t = pick_threads(r); set_threads(t); std::string fn = new_file(b, r.pick({"", ".mtx", ".graph"}));
    label(std::string(kname[k]) + " file read as " + kname[k2] + " threads=" + std::to_string(t) + " " + d); observe(b, t, std::string("k") + kname[k2]);
    rejects([&] { load_t<L, O, W, WG>(r, k2, fn, kft[k2], r.chance(1, 2) ? 0 : 2); }, "other kind");
    // detection finds a kind that the class can not load
    bool convertible = (k == KCOO || k == KCSR) && k2 != KTEN;
    if (!convertible) rejects([&] { load_t<L, O, W, WG>(r, k2, fn, pigo::AUTO, 1); }, "other kind, detected");
}
#define KI(L, O, W, G) kinds<L, O, W, G>(rng)
H_GROUP(kinds) { TYPES(KI) }

template<class L, class O, class W, bool WG> void version(Rng& r) {
    int k = (int)r.below(4); std::string d; set_threads(1); std::string b = saved<L, O, W, WG>(r, k, 30, &d); std::string hd = header(k);
    // a byte of the header changed; for directed graphs also in the headers of the parts
    size_t p; if (k == KDIG && r.chance(1, 2)) { std::string ch = header(KCSR); size_t q = r.chance(1, 2) ? b.find(ch) : b.rfind(ch); p = q + r.below(ch.size()); if (r.chance(1, 2)) p = q + ch.size() - 1; }
    else p = r.chance(1, 2) ? hd.size() - 1 : r.below(hd.size());
    char old = b[p]; do { b[p] = r.chance(1, 2) ? (char)('0' + r.below(10)) : (char)r.below(256); } while (b[p] == old);
    std::string nh = b.substr(0, hd.size()); for (int j = 0; j < 4; ++j) if (b.compare(0, header(j).size(), header(j)) == 0 && j != k) return;
    int t = pick_threads(r); set_threads(t); std::string fn = new_file(b); label(std::string("header byte ") + std::to_string(p) + " of " + kname[k] + " changed to " + std::to_string((int)(u8)b[p])); observe(b, t, "v");
    rejects([&] { load_t<L, O, W, WG>(r, k, fn, kft[k], r.chance(1, 2) ? 0 : 2); }, "other version");
    if (b.compare(0, 4, "PIGO") == 0) rejects([&] { load_t<L, O, W, WG>(r, k, fn, pigo::AUTO, r.chance(1, 2) ? 1 : 3); }, "other version, detected");
    stat("headers_changed");
}
#define VE(L, O, W, G) version<L, O, W, G>(rng)
H_GROUP(version) { TYPES(VE) }

// Saved with other widths. W2 only matters for tensors.
template<class L, class O, class W, class L2, class O2, class W2, bool WG> void widths(Rng& r) {
    bool only_w = sizeof(L) == sizeof(L2) && sizeof(O) == sizeof(O2);
    int k = only_w ? KTEN : (int)r.below(4); std::string d; set_threads(1); std::string b = saved<L, O, W, WG>(r, k, r.pick<size_t>({1, 3, 30, 300}), &d);
    int t = pick_threads(r); set_threads(t); b += std::string(r.chance(1, 2) ? 0 : r.below(9000), '\0');     // room for wider data
    std::string fn = new_file(b); label(std::string(kname[k]) + " saved " + tname<L>() + "," + tname<O>() + "," + tname<W>() + " loaded " + tname<L2>() + "," + tname<O2>() + "," + tname<W2>() + " " + d); observe(b, t, std::string("w") + tname<L2>() + tname<O2>() + tname<W2>());
    rejects([&] { load_t<L2, O2, W2, WG>(r, k, fn, kft[k], (int)r.below(4)); }, "other widths"); stat("width_mismatches");
}
H_GROUP(widths) {
    switch (rng.below(10)) {
        case 0: widths<u32, u32, float, u64, u32, float, false>(rng); break;
        case 1: widths<u64, u32, float, u32, u32, float, true>(rng); break;
        case 2: widths<u32, u32, float, u32, u64, float, true>(rng); break;
        case 3: widths<u32, u64, float, u32, u32, float, false>(rng); break;
        case 4: widths<u32, u64, float, u64, u32, float, false>(rng); break;
        case 5: widths<u16, u16, float, u32, u32, float, true>(rng); break;
        case 6: widths<u64, u64, double, u32, u32, double, true>(rng); break;
        case 7: widths<u32, u32, float, u32, u32, double, true>(rng); break;
        case 8: widths<u32, u64, double, u32, u64, float, true>(rng); break;
        default: widths<u64, u64, u8, u64, u64, u64, true>(rng); break;
    }
}
// The header announces more data than there is, up to sizes that overflow.
template<class T> void poke(std::string& b, size_t p, T v) { memcpy(&b[p], &v, sizeof v); }
template<class T> T peekv(const std::string& b, size_t p) { T v; memcpy(&v, &b[p], sizeof v); return v; }
template<class T> T more(Rng& r, T v) {
    u64 mx = std::numeric_limits<T>::max(), x;
    switch (r.below(5)) { case 0: x = (u64)v + 1; break; case 1: x = (u64)v + 1 + r.below(1000); break; case 2: x = mx - r.below(3); break; case 3: x = (u64)1 << (8 * sizeof(T) - 1 - r.below(5)); if (r.chance(1, 3)) x += r.below(3); break; default: x = mx / r.range(2, 40) + r.below(3); break; }
    if (x > mx) x = mx; if (x <= (u64)v) x = v == (T)mx ? mx : (u64)v + 1; return (T)x;
}
template<class L, class O, class W, bool WG> void announce(Rng& r) {
    int k = (int)r.below(4); std::string d; set_threads(1); std::string b = saved<L, O, W, WG>(r, k, 30, &d); size_t p = header(k).size() + 2; std::string what;
    if (k == KTEN) {
        if (WG) ++p; O order = peekv<O>(b, p), m = peekv<O>(b, p + sizeof(O));
        unsigned q = (unsigned)r.below(3);
        if (q == 0 && m > 0) { order = more(r, order); what = "order " + std::to_string(order); } else if (q == 1 || m == 0) { m = more(r, m); what = "m " + std::to_string(m); if (order == 0) order = 1; } else { order = more(r, order); m = more(r, m); what = "order, m " + std::to_string(order) + "," + std::to_string(m); }
        poke(b, p, order); poke(b, p + sizeof(O), m);
    } else {
        if (k == KDIG) { std::string ch = header(KCSR); p = (r.chance(1, 2) ? b.find(ch) : b.rfind(ch)) + ch.size() + 2; }
        if (k == KCOO) { p += 3 * sizeof(L); O m = more(r, peekv<O>(b, p)); poke(b, p, m); what = "m " + std::to_string(m); }
        else { unsigned q = (unsigned)r.below(3);
            if (q == 0) { O m = more(r, peekv<O>(b, p + sizeof(L))); poke(b, p + sizeof(L), m); what = "m " + std::to_string(m); }
            else { L n = peekv<L>(b, p), nr = peekv<L>(b, p + sizeof(L) + sizeof(O)); L x = more(r, std::max(n, nr)); if (q == 1) { poke(b, p, x); what = "n " + std::to_string(x); } else { poke(b, p + sizeof(L) + sizeof(O), x); what = "nrows " + std::to_string(x); } } }
    }
    int t = pick_threads(r); set_threads(t); std::string fn = new_file(b); label(std::string(kname[k]) + " " + tname<L>() + "," + tname<O>() + " announcing " + what + " " + d); observe(b, t, "a");
    rejects([&] { load_t<L, O, W, WG>(r, k, fn, kft[k], (int)r.below(4)); }, "announced more than there is"); stat("announcements");
}
#define AN(L, O, W, G) announce<L, O, W, G>(rng)
H_GROUP(announce) { TYPES(AN) }
