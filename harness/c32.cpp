// C32: text of any content (columns or weights missing, stray characters, headers that are
// garbage, long runs of anything) loads into a consistent object or raises an exception.
// Every load is done twice with fresh memory holding different patterns.
// Compiled in four parts (-DPART=0..3), part 0 holding the groups.
#ifndef PART
#define PART 0
#endif
#if PART
#define H_NO_MAIN
#endif
#include "ten.hpp"
#include "guard.hpp"
#include <csignal>
using namespace h;

struct Out { bool threw = false; std::string why; std::vector<u64> d; };
static void perturb(int v) {
#if !H_ASAN
    mallopt(M_PERTURB, v);
#endif
    (void)v;
}
inline u64 text_len;
template<class C> static void look_coo(C& c, bool wg, bool sy, bool ut, bool sl, Out& o) {
    u64 n = (u64)c.n(), nr = (u64)c.nrows(), nc = (u64)c.ncols(), m = (u64)c.m();
    H_CHECK(m <= text_len * 2, "too-many", "%llu entries from %llu bytes", (unsigned long long)m, (unsigned long long)text_len);
    Mat q = read_coo(c, wg); o.d = {n, nr, nc, m};
    H_CHECK(n >= nr && n >= nc, "labels", "n=%llu nrows=%llu ncols=%llu", (unsigned long long)n, (unsigned long long)nr, (unsigned long long)nc);
    for (u64 i = 0; i < m; ++i) {
        const E3& e = q.e[i]; o.d.push_back(e.x); o.d.push_back(e.y); o.d.push_back(e.w);
        H_CHECK(e.x < nr && e.y < nc, "bounds", "entry %llu of %llu is (%llu,%llu), nrows=%llu ncols=%llu", (unsigned long long)i, (unsigned long long)m, (unsigned long long)e.x, (unsigned long long)e.y, (unsigned long long)nr, (unsigned long long)nc);
        H_CHECK(!sl || e.x != e.y, "option", "entry %llu is a self loop", (unsigned long long)i);
        H_CHECK(!ut || e.x <= e.y, "option", "entry %llu (%llu,%llu) is in the lower triangle", (unsigned long long)i, (unsigned long long)e.x, (unsigned long long)e.y);
    }
    if (sy && !ut) { std::vector<E3> a = q.e, b = q.e; for (auto& e : b) std::swap(e.x, e.y); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); H_CHECK(a == b, "option", "the entries are not symmetric"); }
    stat("entries_checked", m);
}
template<class C> static void look_csr(C& c, bool wg, bool adj, Out& o) {
    u64 n = (u64)c.n(), nr = (u64)c.nrows(), nc = (u64)c.ncols(), m = (u64)c.m();
    H_CHECK(m <= text_len * 2, "too-many", "%llu entries from %llu bytes", (unsigned long long)m, (unsigned long long)text_len);
    if (!adj) H_CHECK(n >= nr && n >= nc, "labels", "n=%llu nrows=%llu ncols=%llu", (unsigned long long)n, (unsigned long long)nr, (unsigned long long)nc);
    Csr r = read_csr(c, wg); sort_rows(r); o.d = {n, nr, nc, m};
    for (u64 v = 0; v < r.rows.size(); ++v) { H_CHECK(r.rows[v].empty() || v < nr, "bounds", "row %llu has entries, nrows=%llu", (unsigned long long)v, (unsigned long long)nr); o.d.push_back(r.rows[v].size()); for (auto& e : r.rows[v]) { H_CHECK(e.first < nc, "bounds", "row %llu has endpoint %llu, ncols=%llu", (unsigned long long)v, (unsigned long long)e.first, (unsigned long long)nc); o.d.push_back(e.first); o.d.push_back(e.second); } }
    stat("entries_checked", m);
}
// One load of each kind; `how` selects the name, an open handle or a handle read from before.
template<class C, class F> static Out load(const std::string& f, pigo::FileType ft, unsigned how, F&& look) {
    Out o; bool made = false;
    try {
        if (how == 0) { C c(f, ft); made = true; look(c, o); c.free(); }
        else { pigo::ROFile r(f); C c(r, ft); made = true; look(c, o); c.free(); }
    } catch (CaseFail&) { throw; } catch (std::exception& e) { H_CHECK(!made, "late", "an operation on the loaded object threw: %s", e.what()); o.threw = true; o.why = e.what(); }
    return o;
}
template<class L, bool SY, bool UT, bool SL, bool WG, class W, int K> static Out coo(const std::string& f, pigo::FileType ft, unsigned how) {
    typedef pigo::COO<L, u32, Store<L, K>, SY, UT, SL, WG, W, Store<W, K>> C;
    return load<C>(f, ft, how, [](C& c, Out& o) { look_coo(c, WG, SY, UT, SL, o); });
}
// The conversion follows, in a team of its own.
template<class L, bool WG, class W, int K> static Out both(const std::string& f, pigo::FileType ft, unsigned how) {
    typedef pigo::COO<L, u32, Store<L, K>, false, false, false, WG, W, Store<W, K>> C; typedef pigo::CSR<L, u32, Store<L, K>, Store<u32, K>, WG, W, Store<W, K>> R;
    return load<C>(f, ft, how, [](C& c, Out& o) { Out a; look_coo(c, WG, false, false, false, a); R r(c); look_csr(r, WG, false, o); H_CHECK((u64)r.m() == (u64)c.m(), "entry-count", "conversion"); r.sort(); o.d.insert(o.d.end(), a.d.begin(), a.d.end()); r.free(); });
}
template<class L, bool WG, class W, int K> static Out csr(const std::string& f, pigo::FileType ft, unsigned how) {
    typedef pigo::CSR<L, u32, Store<L, K>, Store<u32, K>, WG, W, Store<W, K>> R;
    return load<R>(f, ft, how, [](R& c, Out& o) { look_csr(c, WG, false, o); });
}
template<class G, bool WG> static Out graph(const std::string& f, pigo::FileType ft, unsigned how) { return load<G>(f, ft, how, [](G& c, Out& o) { look_csr(c, WG, true, o); }); }
static void join(Out& o, const Out& a) { o.d.insert(o.d.end(), a.d.begin(), a.d.end()); }
template<class G, bool WG> static Out digraph(const std::string& f, pigo::FileType ft, unsigned how) { return load<G>(f, ft, how, [](G& c, Out& o) { Out i; look_csr(c.out(), WG, true, o); look_csr(c.in(), WG, true, i); H_CHECK((u64)c.in().m() == (u64)c.m(), "entry-count", "in and out edges"); join(o, i); }); }
#if PART == 2
struct MWrap : pigo::Matrix<u32, u32, u32*, u32*, true, float, float*> { MWrap(const std::string& f, pigo::FileType) : Matrix(f) {} MWrap(pigo::File&, pigo::FileType) : Matrix(name()) {} static std::string& name() { static std::string s; return s; } };
struct MPlain : pigo::Matrix<> { MPlain(const std::string& f, pigo::FileType) : Matrix(f) {} MPlain(pigo::File&, pigo::FileType) : Matrix(MWrap::name()) {} };
template<class M, bool WG> static Out matrix(const std::string& f, pigo::FileType ft, unsigned how) { MWrap::name() = f; return load<M>(f, ft, how, [](M& c, Out& o) { Out i; look_csr(c.csr(), WG, false, o); look_csr(c.csc(), WG, false, i); H_CHECK((u64)c.csr().m() == (u64)c.csc().m(), "entry-count", "rows and columns"); join(o, i); }); }
#endif
template<class L, int K> static Out adjacency(const std::string& f, pigo::FileType ft, unsigned how) {
    typedef pigo::CSR<L, u32, Store<L, K>, Store<u32, K>> R; typedef pigo::COO<L, u32, Store<L, K>> C;
    return load<R>(f, ft, how, [](R& c, Out& o) { look_csr(c, false, true, o); C k(c); Mat q = read_coo(k, false); H_CHECK(q.e.size() == (u64)c.m(), "entry-count", "conversion"); for (auto& e : q.e) H_CHECK(e.x < q.nr && e.y < q.nc, "bounds", "converted entry"); R b(k); look_csr(b, false, false, o); k.free(); b.free(); });
}
template<class L, class O, bool WG, class W, int K> static Out tensor(const std::string& f, pigo::FileType ft, unsigned how) {
    typedef pigo::Tensor<L, O, Store<L, K>, W, Store<W, K>, WG> T;
    return load<T>(f, ft, how, [](T& c, Out& o) {
        u64 m = (u64)c.m(), od = (u64)c.order(); o.d = {m, od}; H_CHECK(m <= text_len && od <= text_len, "too-many", "%llu entries of order %llu from %llu bytes", (unsigned long long)m, (unsigned long long)od, (unsigned long long)text_len);
        for (u64 i = 0; i < m * od; ++i) o.d.push_back((u64)raw(c.c())[i]);
        if (WG) for (u64 i = 0; i < m; ++i) o.d.push_back(wbits(raw(c.w())[i]));
        stat("entries_checked", m);
    });
}
typedef Out (*Fn)(const std::string&, pigo::FileType, unsigned);
struct Route { const char* name; Fn fn; u64 cap; int kind; };   // kind 0: edge list or matrix market, 1: adjacency, 2: tensor
std::vector<Route> part0(), part1(), part2(), part3();
#if PART == 0
std::vector<Route> part0() { return {
    {"coo", coo<u32, false, false, false, false, float, 0>, 99999, 0}, {"coo u8", coo<u8, false, false, false, false, float, 1>, 255, 0}, {"coo float", coo<u32, false, false, false, true, float, 0>, 99999, 0}, {"coo double u64", coo<u64, false, false, false, true, double, 2>, 99999, 0},
    {"coo int", coo<u32, false, false, false, true, int, 0>, 99999, 0}, {"coo u32 weight", coo<u32, false, false, false, true, u32, 1>, 99999, 0}, {"sym", coo<u32, true, false, false, false, float, 0>, 99999, 0}, {"sym int", coo<u32, true, false, false, true, int, 0>, 99999, 0},
    {"sym float", coo<u16, true, false, false, true, float, 1>, 9999, 0}, {"sym u32 weight", coo<u8, true, false, false, true, u32, 0>, 255, 0},
}; }
#endif
#if PART == 1
std::vector<Route> part1() { return {
    {"sym sl float", coo<u32, true, false, true, true, float, 0>, 99999, 0}, {"sym sl int", coo<u32, true, false, true, true, int, 1>, 99999, 0}, {"sym sl", coo<u32, true, false, true, false, int, 1>, 99999, 0}, {"sl float", coo<u32, false, false, true, true, float, 0>, 99999, 0},
    {"sl u32 weight", coo<u32, false, false, true, true, u32, 0>, 99999, 0}, {"sl", coo<u32, false, false, true, false, u32, 0>, 99999, 0}, {"ut int", coo<u32, false, true, false, true, int, 0>, 99999, 0}, {"ut sl double", coo<u32, false, true, true, true, double, 0>, 99999, 0},
    {"ut sl", coo<u8, false, true, true, false, double, 2>, 255, 0}, {"sym ut float", coo<u32, true, true, false, true, float, 0>, 99999, 0}, {"sym ut sl int", coo<u32, true, true, true, true, int, 0>, 99999, 0}, {"sym ut", coo<u32, true, true, false, false, int, 2>, 99999, 0},
}; }
#endif
#if PART == 2
std::vector<Route> part2() { return {
    {"both", both<u32, false, float, 0>, 99999, 0}, {"both u8", both<u8, false, float, 0>, 255, 0}, {"both float", both<u32, true, float, 0>, 99999, 0}, {"both int", both<u16, true, int, 1>, 9999, 0},
    {"both u32 weight", both<u8, true, u32, 2>, 255, 0}, {"csr", csr<u32, false, float, 0>, 99999, 0}, {"csr float", csr<u32, true, float, 1>, 99999, 0}, {"csr int", csr<u8, true, int, 0>, 255, 0},
    {"digraph", digraph<pigo::DiGraph<>, false>, 99999, 0}, {"digraph float", digraph<pigo::DiGraph<u16, u32, std::vector<u16>, std::vector<u32>, true, float, std::vector<float>>, true>, 9999, 0}, {"graph", graph<pigo::Graph, false>, 99999, 0}, {"matrix float", matrix<MWrap, true>, 99999, 0},
    {"matrix", matrix<MPlain, false>, 99999, 0},
}; }
#endif
#if PART == 3
std::vector<Route> part3() { return {
    {"adjacency", adjacency<u32, 0>, 99999, 1}, {"adjacency u8", adjacency<u8, 1>, 255, 1}, {"adjacency u16", adjacency<u16, 2>, 9999, 1}, {"adjacency digraph", digraph<pigo::DiGraph<>, false>, 99999, 1},
    {"adjacency graph", graph<pigo::Graph, false>, 99999, 1}, {"tensor", tensor<u32, u32, false, float, 0>, 99999, 2}, {"tensor u8", tensor<u8, u32, false, float, 1>, 255, 2}, {"tensor float", tensor<u32, u32, true, float, 0>, 99999, 2},
    {"tensor int", tensor<u32, u32, true, int, 0>, 99999, 2}, {"tensor double", tensor<u64, u64, true, double, 2>, 99999, 2}, {"tensor u32 weight", tensor<u32, u64, true, u32, 1>, 99999, 2},
}; }
#endif
#if PART == 0
static const std::vector<Route> routes = [] { std::vector<Route> v; for (auto f : {part0, part1, part2, part3}) for (auto& x : f()) v.push_back(x); return v; }();
static const size_t nroutes = routes.size();

// ---- text ----
static std::string num(Rng& r, u64 cap) { return std::to_string(r.chance(1, 14) ? cap - r.below(2) : r.chance(1, 5) ? r.below(cap + 1) : r.below(std::min<u64>(cap, 12))); }
static std::string weight(Rng& r) { static const char* w[] = {"1", "-1", "2.5", "-.5", "1e2", "+3", "1e", "1e-", "-", ".", "e", "+", "1.2.3", "1e2e3", "--4", "nan", "inf", "1e99999", "-e-e-3", "1-2", "1,5", "'7'", "x", "0x3", "e5", "1e 5", "1e\t-2"}; return w[r.chance(1, 2) ? r.below(6) : r.below(sizeof w / sizeof *w)]; }
static std::string noise(Rng& r, size_t n) {
    static const std::string sets[] = {"0123456789 \n", "0123456789 \n\t\r#%.-+eE", "12 \n#%", "0123456789.eE+- \n", std::string("ab#%\n\r\0 1\xff", 10), "1 2\n", "1 e-+.\n", std::string("\0\n1 2", 6)};
    std::string s; const std::string& a = sets[r.below(8)]; while (s.size() < n) { unsigned q = (unsigned)r.below(14); if (q == 0) s += "%%MatrixMarket matrix coordinate real general\n3 3 2\n"; else if (q == 1) s += num(r, 40) + " " + num(r, 40) + "\n"; else if (q == 2) s += "# c"; else for (size_t i = r.below(9); i-- > 0;) s += a[r.below(a.size())]; }
    s.resize(n); return s;
}
// Lines of the right kind, some of them with too few or too many columns, or with something else in them.
static std::string lines(Rng& r, size_t n, u64 cap, unsigned cols, bool wgt, unsigned odd) {
    std::string s; unsigned mode = (unsigned)r.below(4); static const char* sep[] = {" ", "\t", "  ", ",", " # ", "%", "-", " .", "\r", ";"};
    for (size_t i = 0; i < n; ++i) {
        bool bad = r.chance(1, odd); unsigned k = cols; bool w = wgt;
        if (bad) switch (mode == 3 ? r.below(4) : mode) { case 0: w = !w; break; case 1: k = (unsigned)r.below(cols + 3); break; case 2: w = r.chance(1, 2); break; default: s += noise(r, r.below(12)); }
        std::string first; for (unsigned j = 0; j < k; ++j) { std::string v = j && j < 2 && r.chance(1, 4) ? first : num(r, cap); if (!j) first = v; s += (j ? (bad && r.chance(1, 6) ? sep[r.below(10)] : " ") : "") + v; }
        if (w) s += (k ? " " : "") + (bad ? weight(r) : std::to_string(r.below(9)));
        if (bad && r.chance(1, 8)) s += r.chance(1, 2) ? " extra 7" : " #";
        s += bad && r.chance(1, 8) ? "\n\n" : r.chance(1, 40) ? "\r\n" : "\n";
    }
    if (r.chance(1, 3) && !s.empty()) s.pop_back(); else if (r.chance(1, 6)) s.resize(s.size() - r.below(std::min<size_t>(s.size(), 6) + 1));
    return s;
}
// No number exceeds what the types hold.
static void tame(std::string& s, u64 cap) {
    size_t digits = std::to_string(cap).size(); u64 v = 0; size_t run = 0;
    for (char& c : s) { if (c >= '0' && c <= '9') { u64 x = v * 10 + (u64)(c - '0'); if (x > cap || (x && ++run > digits)) { c = ' '; v = 0; run = 0; } else v = x; } else { v = 0; run = 0; } }
}
static std::string header(Rng& r, int kind, bool mm, u64 cap, size_t n) {
    if (kind == 1) { switch (r.below(6)) { case 0: return num(r, cap) + "\n"; case 1: return num(r, cap) + " x " + num(r, cap) + "\n"; case 2: return "# c\n" + num(r, cap) + " " + num(r, cap) + " 1 2\n"; default: return std::to_string(std::min<u64>(cap, r.below(n + 2))) + " " + std::to_string(r.below(3 * n + 3)) + "\n"; } }
    if (!mm) return ""; std::string b = "%%MatrixMarket matrix coordinate real general\n"; if (r.chance(1, 4)) b += "% c 1 2 3\n";
    switch (r.below(8)) { case 0: return b; case 1: return b + num(r, cap - 1) + "\n"; case 2: return b + "x y z\n"; case 3: return b + num(r, cap - 1) + " " + num(r, cap - 1) + "\n"; case 4: return b.substr(0, b.size() - r.below(12)); default: { u64 c = cap - 1; return b + std::to_string(c) + " " + std::to_string(r.chance(1, 6) ? num(r, c).size() : c) + " " + std::to_string(std::min<u64>(n, cap)) + "\n"; } }
}
static std::string make(Rng& r, const Route& q, size_t n, bool mm) {
    unsigned cols = q.kind == 2 ? (unsigned)r.range(1, 4) : q.kind == 1 ? (unsigned)r.below(6) : 2; bool wgt = q.kind == 1 ? false : r.chance(1, 2); std::string s = r.chance(1, 8) ? noise(r, 20) : header(r, q.kind, mm, q.cap, n);
    switch (r.below(8)) { case 0: s += noise(r, n * 4 + r.below(30)); break; default: s += lines(r, n, q.cap, cols, wgt, r.chance(1, 3) ? 2 : r.chance(1, 2) ? 5 : (unsigned)std::max<size_t>(2, n / 2)); }
    if (r.chance(1, 10)) s.insert(r.below(s.size() + 1), noise(r, r.below(30)));
    return s;
}
static void hang(int) { char b[900]; std::string l = st().label; for (char& c : l) if (c == '\n' || c == '\r') c = '~'; int n = snprintf(b, sizeof b, "\nFAIL key=hang group=%s case=%ld label=[%s] loading did not end\n", st().group.c_str(), st().cur, l.c_str()); if (write(1, b, (size_t)n)) {} _exit(1); }
static void go(Rng& r, const std::string& text, const Route& q, bool mm, int threads) {
    std::string s = text; tame(s, q.cap); if (s.empty()) s = "\n"; text_len = s.size();
    std::string f = new_file(s, q.kind == 1 ? ".graph" : mm ? ".mtx" : ""); unsigned how = (unsigned)r.below(2); pigo::FileType ft = q.kind == 1 ? pigo::GRAPH : q.kind == 2 ? pigo::EDGE_LIST : mm ? (r.chance(1, 2) ? pigo::AUTO : pigo::MATRIX_MARKET) : pigo::EDGE_LIST;
    char b[240]; snprintf(b, sizeof b, "%s%s length=%zu threads=%d how=%u text='%.90s'", q.name, mm ? " mm" : "", s.size(), threads, how, s.c_str()); label(b);
    if (const char* k = getenv("C32_KEEP")) put_file(std::string(k) + "/text" + (q.kind == 1 ? ".graph" : mm ? ".mtx" : ""), s);
    signal(SIGALRM, hang); alarm(100); set_threads(threads); Out a, c; { guard::Scope g; perturb(0x5a); a = q.fn(f, ft, how); perturb(0xa4); c = q.fn(f, ft, how); perturb(0); } alarm(0);
    H_CHECK(a.threw == c.threw, "uninitialised", "the outcome depends on what fresh memory held: '%s' and '%s'", a.why.c_str(), c.why.c_str());
    H_CHECK(a.d.size() == c.d.size(), "uninitialised", "the result depends on what fresh memory held: %zu and %zu values", a.d.size(), c.d.size());
    for (size_t i = 0; i < a.d.size(); ++i) H_CHECK(a.d[i] == c.d[i], "uninitialised", "the result depends on what fresh memory held: value %zu is %llx and %llx", i, (unsigned long long)a.d[i], (unsigned long long)c.d[i]);
    stat(a.threw ? "exceptions" : "objects"); stat(std::string("kind_") + (q.kind == 1 ? "adjacency" : q.kind == 2 ? "tensor" : mm ? "mm" : "edges")); stat("evaluations"); stat_max("text_bytes", s.size()); seen("inputs", hash_str(s) ^ mix((u64)(&q - routes.data()) * 64 + (u64)threads));
}
static bool pick_mm(Rng& r, const Route& q) { return q.kind == 0 && r.chance(1, 4); }
H_GROUP(small) { const Route& q = routes[rng.below(nroutes)]; bool mm = pick_mm(rng, q); go(rng, make(rng, q, rng.below(14), mm), q, mm, rng.chance(1, 3) ? 1 : pick_threads(rng)); }
H_GROUP(medium) { const Route& q = routes[rng.below(nroutes)]; bool mm = pick_mm(rng, q); go(rng, make(rng, q, 20 + rng.below(400), mm), q, mm, pick_threads(rng)); }
H_GROUP(large) { const Route& q = routes[rng.below(nroutes)]; bool mm = pick_mm(rng, q); go(rng, make(rng, q, 2000 + rng.below(20000), mm), q, mm, pick_threads(rng)); }
// A long run of one thing somewhere in an otherwise ordinary text.
H_GROUP(runs) {
    const Route& q = routes[rng.below(nroutes)]; bool mm = pick_mm(rng, q); std::string s = make(rng, q, rng.below(12), mm); static const std::string unit[] = {"e", "E", "-", "+", ".", "#", "%", " ", "\t", "\r", "\n", "0", std::string(1, '\0'), "e-", "1e", "x", "\n#", "% \n", "1\n", "1 ", "\xff", "-\n", "1 2 3e", "\r\n", "ee+", "1 1\n"};
    const std::string& u = unit[rng.below(sizeof unit / sizeof *unit)]; std::string run; size_t n = rng.chance(1, 3) ? 400000 : rng.chance(1, 2) ? 70000 : 300; while (run.size() < n) run += u;
    std::string pre = rng.chance(1, 2) ? "1 2 " : ""; size_t at = rng.chance(1, 4) ? s.size() : rng.chance(1, 4) ? 0 : rng.below(s.size() + 1); s.insert(at, pre + run + (rng.chance(1, 2) ? "\n" : ""));
    stat("runs"); go(rng, s, q, mm, rng.chance(1, 3) ? 1 : pick_threads(rng));
}
#endif
