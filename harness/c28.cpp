// C28: operations change nothing but what they are asked to.
#include "ten.hpp"
#include "guard.hpp"
#include <cfenv>
#include <clocale>
#include <csignal>
#include <dirent.h>
#include <iostream>
#include <sys/time.h>
using namespace h;
extern char** environ;

// ---- the process ----
struct Proc {
    std::string cwd, loc, env, sig, omp, ios; mode_t um; int round, fds;
    static int count_fds() { int n = 0; DIR* d = opendir("/proc/self/fd"); if (!d) return -1; while (readdir(d)) ++n; closedir(d); return n; }
    Proc() {
        char b[4096]; cwd = getcwd(b, sizeof b) ? b : ""; loc = setlocale(LC_ALL, nullptr) + std::string(" ") + std::locale().name() + std::use_facet<std::numpunct<char>>(std::locale()).decimal_point(); for (char** e = environ; e && *e; ++e) { env += *e; env += '\n'; }
        um = umask(0); umask(um); round = fegetround(); fds = count_fds();
        for (int s = 1; s < 32; ++s) { struct sigaction a; if (sigaction(s, nullptr, &a) == 0) { char t[64]; snprintf(t, sizeof t, "%d:%p:%d ", s, (void*)a.sa_handler, a.sa_flags); sig += t; } }
#ifdef _OPENMP
        omp = "max threads " + std::to_string(omp_get_max_threads()) + ", dynamic " + std::to_string(omp_get_dynamic());
        if (!rt_regions) { omp_sched_t k; int c; omp_get_schedule(&k, &c); omp += ", schedule " + std::to_string((int)k) + "/" + std::to_string(c) + ", levels " + std::to_string(omp_get_max_active_levels()); }
#endif
        for (std::ios* s : {(std::ios*)&std::cout, (std::ios*)&std::cerr}) ios += std::to_string((long)s->flags()) + "/" + std::to_string(s->precision()) + "/" + std::to_string((int)s->exceptions()) + " ";
    }
};
static void cmp(const Proc& a, const Proc& b, const char* what) {
    H_CHECK(a.cwd == b.cwd, "directory", "%s changed the working directory", what); H_CHECK(a.loc == b.loc, "locale", "%s changed the locale to %s", what, b.loc.c_str()); H_CHECK(a.env == b.env, "environment", "%s changed the environment", what); H_CHECK(a.um == b.um, "umask", "%s changed the umask", what);
    H_CHECK(a.round == b.round, "rounding", "%s changed the rounding mode", what); H_CHECK(a.sig == b.sig, "signals", "%s changed a signal handler", what); H_CHECK(a.omp == b.omp, "openmp", "%s changed OpenMP settings: %s, before %s", what, b.omp.c_str(), a.omp.c_str()); H_CHECK(a.ios == b.ios, "streams", "%s changed the standard streams' formatting", what); H_CHECK(a.fds == b.fds, "descriptors", "%s left %d descriptors", what, b.fds - a.fds);
}
// ---- the directory ----
struct Item { std::string content; mode_t mode; uid_t uid; ino_t ino; nlink_t links; time_t sec; long ns; bool operator==(const Item& o) const { return content == o.content && mode == o.mode && uid == o.uid && ino == o.ino && links == o.links && sec == o.sec && ns == o.ns; } };
typedef std::map<std::string, Item> Dir;
static Dir look(const std::string& d) {
    Dir m; DIR* p = opendir(d.c_str()); if (!p) { perror("opendir"); _exit(9); }
    while (struct dirent* e = readdir(p)) { std::string n = e->d_name; if (n == "." || n == "..") continue; struct stat sb; if (lstat((d + "/" + n).c_str(), &sb)) continue; m[n] = {S_ISREG(sb.st_mode) ? get_file(d + "/" + n) : "", sb.st_mode, sb.st_uid, sb.st_ino, sb.st_nlink, sb.st_mtim.tv_sec, sb.st_mtim.tv_nsec}; }
    closedir(p); return m;
}
// Everything but the file named out is as before; out is there when it was to be made.
static void cmp(const Dir& a, const Dir& b, const std::string& out, const char* what) {
    for (auto& i : a) { if (i.first == out) continue; auto j = b.find(i.first); H_CHECK(j != b.end(), "file-lost", "%s removed the file %s", what, i.first.c_str()); H_CHECK(j->second.content == i.second.content, "file-changed", "%s changed the file %s", what, i.first.c_str()); H_CHECK(j->second == i.second, "file-touched", "%s touched the file %s (time, mode, owner, links or identity)", what, i.first.c_str()); }
    for (auto& j : b) H_CHECK(j.first == out || a.count(j.first), "file-new", "%s left a file %s", what, j.first.c_str());
    H_CHECK(out.empty() || b.count(out), "no-file", "%s made no file", what);
}
static void set_old(const std::string& f) { struct timespec t[2]; for (auto& x : t) { x.tv_sec = 1000000000; x.tv_nsec = 5; } utimensat(AT_FDCWD, f.c_str(), t, AT_SYMLINK_NOFOLLOW); }
static void rm_all(const std::string& d) { Dir m = look(d); for (auto& i : m) { std::string p = d + "/" + i.first; if (S_ISDIR(i.second.mode)) rmdir(p.c_str()); else unlink(p.c_str()); } }

// ---- what is watched around one call ----
static std::string the_dir() { static std::string d = [] { std::string x = st().scratch + "/dir"; mkdir(x.c_str(), 0777); chmod(x.c_str(), 0777); if (chdir(x.c_str())) _exit(9); char b[4096]; return std::string(getcwd(b, sizeof b) ? b : "."); }(); return d; }
static bool as_user(bool on) { if (getuid() != 0) return false; return seteuid(on ? 65534 : 0) == 0; }
struct User { bool ok; User(bool want) : ok(want && as_user(true)) {} ~User() { if (ok && seteuid(0)) _exit(9); } };
template<class F> void watched(const char* what, const std::string& out, bool user, F f) {
    Dir d0 = look("."); fflush(stdout); fflush(stderr); std::cout.flush();
    std::string cap = st().scratch + "/printed"; int c = open(cap.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0644), o1 = dup(1), o2 = dup(2); dup2(c, 1); dup2(c, 2);
    auto back = [&] { fflush(stdout); fflush(stderr); std::cout.flush(); dup2(o1, 1); dup2(o2, 2); close(o1); close(o2); close(c); };
    srand(4711); Proc p0; std::string problem;
    try { User u(user); guard::Scope g; f(); if (u.ok) stat("calls_as_unprivileged_user"); } catch (std::exception& e) { back(); fail("unexpected-exception", "%s: %s", what, e.what()); } catch (...) { back(); throw; }
    Proc p1; int rnd = rand(); back(); cmp(p0, p1, what); srand(4711); H_CHECK(rnd == rand(), "random-state", "%s used the application's random numbers", what);
    std::string pr = get_file(cap); H_CHECK(pr.empty(), "printed", "%s printed '%s'", what, pr.substr(0, 80).c_str());
    std::string e = guard::take_errors(); H_CHECK(e.empty() && guard::live_maps() == 0 && guard::open_streams() == 0, "mapping", "%s: %s live=%zu streams=%zu", what, e.c_str(), guard::live_maps(), guard::open_streams());
    cmp(d0, look("."), out, what); stat("calls_watched"); stat("evaluations");
}

// ---- digests, saving and changing of each class ----
template<class T> struct Cls;
#define GRAPHLIKE(X) template<class L, class O, class LS, class OS, bool w, class W, class WS> struct Cls<pigo::X<L, O, LS, OS, w, W, WS>> { typedef pigo::X<L, O, LS, OS, w, W, WS> T; \
    static u64 dig(T& x) { return hash_csr(read_csr(x, w)); } static bool text() { return false; } static void put(T& x, const std::string& f, bool) { x.save(f); } \
    static void poke(T& x) { for (u64 i = 0; i < (u64)x.m(); ++i) { raw(x.endpoints())[i] ^= 1; if (w) raw(x.weights())[i] = (W)77; } } };
GRAPHLIKE(CSR) GRAPHLIKE(BaseGraph)
template<class L, class O, class S, bool a, bool b, bool c, bool w, class W, class WS> struct Cls<pigo::COO<L, O, S, a, b, c, w, W, WS>> { typedef pigo::COO<L, O, S, a, b, c, w, W, WS> T;
    static u64 dig(T& x) { return hash_mat(read_coo(x, w)); } static bool text() { return true; } static void put(T& x, const std::string& f, bool t) { if (t) x.write(f); else x.save(f); }
    static void poke(T& x) { for (u64 i = 0; i < (u64)x.m(); ++i) { raw(x.x())[i] ^= 1; raw(x.y())[i] ^= 1; if (w) raw(x.w())[i] = (W)77; } } };
template<class L, class O, class S, class W, class WS, bool w> struct Cls<pigo::Tensor<L, O, S, W, WS, w>> { typedef pigo::Tensor<L, O, S, W, WS, w> T;
    static u64 dig(T& x) { return hash_ten(read_ten(x, w)); } static bool text() { return true; } static void put(T& x, const std::string& f, bool t) { if (t) x.write(f); else x.save(f); }
    static void poke(T& x) { for (u64 i = 0; i < (u64)x.m() * (u64)x.order(); ++i) raw(x.c())[i] ^= 1; if (w) for (u64 i = 0; i < (u64)x.m(); ++i) raw(x.w())[i] = (W)77; } };
template<class L, class O, class LS, class OS, bool w, class W, class WS> struct Cls<pigo::DiGraph<L, O, LS, OS, w, W, WS>> { typedef pigo::DiGraph<L, O, LS, OS, w, W, WS> T; typedef Cls<typename std::remove_reference<decltype(std::declval<T&>().out())>::type> G;
    static u64 dig(T& x) { return mix(hash_csr(read_csr(x.out(), w))) + hash_csr(read_csr(x.in(), w)); } static bool text() { return false; } static void put(T& x, const std::string& f, bool) { x.save(f); }
    static void poke(T& x) { for (u64 i = 0; i < (u64)x.m(); ++i) { raw(x.out().endpoints())[i] ^= 1; raw(x.in().endpoints())[i] ^= 1; } } };

// Files of every kind describing the same matrix.
struct Gen { Mat m; std::map<int, std::string> f; };
template<bool WG> Gen gen_files(Rng& r, size_t cap) {
    typedef pigo::COO<u32, u32, u32*, false, false, false, WG, float, float*> C; typedef pigo::CSR<u32, u32, u32*, u32*, WG, float, float*> R; typedef pigo::DiGraph<u32, u32, u32*, u32*, WG, float, float*> D; typedef pigo::Tensor<u32, u32, u32*, float, float*, WG> TT;
    Gen g; Mat& m = g.m; m = gen_mat<float>(r, 1 + r.below(cap), 500, WG); if (WG) for (auto& e : m.e) e.w = wbits<float>((float)r.below(50)); C c((u32)m.n, (u32)m.nr, (u32)m.nc, (u32)m.e.size()); fill_coo(c, m, WG); std::string el; for (auto& e : m.e) el += std::to_string(e.x) + " " + std::to_string(e.y) + (WG ? " " + std::to_string((int)wfrom<float>(e.w)) : "") + "\n";
    if (r.chance(1, 4)) page_align_front(el);
    g.f[pigo::EDGE_LIST] = el; g.f[pigo::MATRIX_MARKET] = std::string("%%MatrixMarket matrix coordinate ") + (WG ? "integer" : "pattern") + " general\n" + std::to_string(m.nr) + " " + std::to_string(m.nc) + " " + std::to_string(m.e.size()) + "\n" + el;
    std::string fn = st().scratch + "/gen"; c.save(fn); g.f[pigo::PIGO_COO_BIN] = get_file(fn); unlink(fn.c_str());
    { R x(c); x.save(fn); x.free(); g.f[pigo::PIGO_CSR_BIN] = get_file(fn); unlink(fn.c_str()); } { D x(c); x.save(fn); x.free(); g.f[pigo::PIGO_DIGRAPH_BIN] = get_file(fn); unlink(fn.c_str()); }
    { TT x(2, (u32)m.e.size()); for (size_t i = 0; i < m.e.size(); ++i) { x.c()[2 * i] = (u32)m.e[i].x; x.c()[2 * i + 1] = (u32)m.e[i].y; if (WG) x.w()[i] = wfrom<float>(m.e[i].w); } x.save(fn); x.free(); g.f[pigo::PIGO_TENSOR_BIN] = get_file(fn); unlink(fn.c_str()); }
    { Csr rows = to_rows(m); size_t cnt = 0; std::string b; for (auto& row : rows.rows) { for (auto& e : row) { b += std::to_string(e.first) + " "; ++cnt; } b += "\n"; } b.insert(b.find('\n'), "0 "); g.f[pigo::GRAPH] = std::to_string(m.n) + " " + std::to_string(cnt + 1) + "\n" + b; }
    c.free(); return g;
}
static std::string tamper(Rng& r, const std::string& f) {
    switch (r.below(5)) {
        case 0: if (truncate(f.c_str(), 0)) {} return "cut";
        case 1: { std::string s = get_file(f); for (auto& c : s) c = '9'; int fd = open(f.c_str(), O_WRONLY); if (pwrite(fd, s.data(), s.size(), 0)) {} close(fd); return "overwritten"; }
        case 2: unlink(f.c_str()); return "deleted";
        case 3: unlink(f.c_str()); put_file(f, "5 6 7\n"); return "replaced";
        default: { std::string s = "1 2 3\n"; int fd = open(f.c_str(), O_WRONLY | O_APPEND); for (int i = 0; i < 900; ++i) if (::write(fd, s.data(), s.size())) {} close(fd); return "extended"; } }
}
template<class T> void flow(Rng& r, const char* cname, std::vector<int> kinds, bool WG, size_t cap) {
    std::string dir = the_dir(); rm_all("."); Gen g = WG ? gen_files<true>(r, cap) : gen_files<false>(r, cap); if (WG) kinds.erase(std::remove(kinds.begin(), kinds.end(), (int)pigo::GRAPH), kinds.end()); int ft = kinds[r.below(kinds.size())];
    std::string in = ft == pigo::MATRIX_MARKET ? "in.mtx" : ft == pigo::GRAPH ? "in.graph" : r.pick({"in", "in.el", "in.bin"}); bool user = r.chance(1, 2), ro = r.chance(1, 2);
    put_file(in, g.f[ft]); for (const char* n : {"in.tmp", "in~", ".in", "out.tmp", "out~", ".out", "tmp", "inx", "in.idx"}) put_file(n, "bystander\n"); mkdir("sub", 0755); 
    for (auto& i : look(".")) { chmod(i.first.c_str(), ro && i.first == in ? 0444 : 0644); set_old(i.first); } chmod("sub", 0755); set_old("sub");
    int t = pick_threads(r); set_threads(t);
#ifdef _OPENMP
    int dyn = (int)r.below(2); if (!rt_regions) omp_set_dynamic(dyn);
    struct Dyn { ~Dyn() { if (!rt_regions) omp_set_dynamic(0); } } restore;
#endif
    char lb[160]; snprintf(lb, sizeof lb, "%s%s from kind %d, threads=%d%s%s", cname, WG ? " weighted" : "", ft, t, user ? " unprivileged" : "", ro ? " read-only" : ""); label(std::string(lb) + " " + desc(g.m)); seen("inputs", hash_mat(g.m) ^ hash_str(lb));
    unsigned how = (unsigned)r.below(4); Box<T> b(pick_pattern(r)); bool abs = !user && r.chance(1, 2); std::string path = abs ? dir + "/" + in : in;
    watched("loading", "", user, [&] { if (how == 0) b.make(path); else if (how == 1) b.make(path, (pigo::FileType)ft); else { pigo::ROFile f(path); if (how == 2) b.make(f, (pigo::FileType)ft); else b.make(f, pigo::AUTO); } });
    T& x = b.get(); u64 d = Cls<T>::dig(x); std::string w;
    Box<T> b2(0x5a); watched("loading again", "", user, [&] { b2.make(path, (pigo::FileType)ft); }); T& y = b2.get(); u64 dy = Cls<T>::dig(y);
    if (r.chance(1, 2)) { Cls<T>::poke(x); u64 d2 = Cls<T>::dig(x); H_CHECK(get_file(in) == g.f[ft], "file-changed", "changing the object changed the file it was loaded from"); H_CHECK(Cls<T>::dig(y) == dy, "shared", "changing one object changed another one loaded from the same file"); d = d2; stat("objects_changed"); }
    if (r.chance(2, 3)) { w = tamper(r, in); stat("inputs_" + w); H_CHECK(Cls<T>::dig(x) == d && Cls<T>::dig(y) == dy, "depends-on-file", "the object changed when its file was %s", w.c_str()); }
    // saving, also over its own input or an existing file
    bool tx = Cls<T>::text() && (u64)x.m() > 0 && r.chance(1, 2); std::string out = r.pick<std::string>({"out", "out", in, "out.tmp"}); bool u2 = user && out == "out"; std::string o = !u2 && r.chance(1, 2) ? dir + "/" + out : out; if (exists(out)) chmod(out.c_str(), 0644);
    set_threads(pick_threads(r)); watched(tx ? "writing" : "saving", out, u2, [&] { Cls<T>::put(x, o, tx); }); H_CHECK(Cls<T>::dig(x) == d, "source", "%s changed the object", tx ? "writing" : "saving"); std::string bytes = get_file(out); stat("files_made");
    if (!tx) { Box<T> b3(0); watched("loading the saved file", "", false, [&] { b3.make(o); }); H_CHECK(Cls<T>::dig(b3.get()) == d, "reloaded", "the saved file holds something else"); Cls<T>::poke(b3.get()); b3.get().free(); H_CHECK(get_file(out) == bytes, "file-changed", "changing the object changed the file it was loaded from"); }
    Cls<T>::poke(x); H_CHECK(get_file(out) == bytes, "file-changed", "changing the object changed the file it was saved to"); d = Cls<T>::dig(x); tamper(r, out); H_CHECK(Cls<T>::dig(x) == d && Cls<T>::dig(y) == dy, "depends-on-file", "the object changed with the file it was saved to");
    watched("releasing", "", false, [&] { x.free(); y.free(); });
}
template<int K, bool WG> void any(Rng& r, size_t cap) {
    typedef Store<u32, K> S; typedef Store<float, K> WS; using namespace pigo;
    switch (r.below(6)) {
        case 0: flow<COO<u32, u32, S, false, false, false, WG, float, WS>>(r, "coo", {EDGE_LIST, MATRIX_MARKET, PIGO_COO_BIN, PIGO_CSR_BIN, GRAPH}, WG, cap); break;
        case 1: flow<COO<u32, u32, S, true, false, false, WG, float, WS>>(r, "symmetrised coo", {EDGE_LIST, MATRIX_MARKET}, WG, cap); break;
        case 2: flow<CSR<u32, u32, S, S, WG, float, WS>>(r, "csr", {EDGE_LIST, MATRIX_MARKET, PIGO_COO_BIN, PIGO_CSR_BIN, GRAPH}, WG, cap); break;
        case 3: flow<DiGraph<u32, u32, S, S, WG, float, WS>>(r, "digraph", {EDGE_LIST, MATRIX_MARKET, PIGO_COO_BIN, PIGO_DIGRAPH_BIN}, WG, cap); break;
        case 4: flow<BaseGraph<u32, u32, S, S, WG, float, WS>>(r, "graph", {EDGE_LIST, PIGO_CSR_BIN, GRAPH}, WG, cap); break;
        default: flow<Tensor<u32, u32, S, float, WS, WG>>(r, "tensor", {EDGE_LIST, PIGO_TENSOR_BIN}, WG, cap); break; }
}
#ifdef H_UBSAN      // fewer instantiations where compiling takes long
enum { VARIANTS = 2 };
#else
enum { VARIANTS = 3 };
#endif
static void pick(Rng& r, size_t cap) { switch (r.below(VARIANTS)) { case 0: any<0, true>(r, cap); break; case 1: any<1, false>(r, cap); break; default: if constexpr (VARIANTS > 2) any<2, true>(r, cap); } }
H_GROUP(flows) { pick(rng, 300); }
H_GROUP(large) { any<0, true>(rng, 60000); }

// Operations on objects in memory touch no file and no setting, and leave their source alone.
template<int K, bool WG> void memory(Rng& r, size_t cap) {
    typedef Store<u32, K> S; typedef Store<float, K> WS; typedef pigo::COO<u32, u32, S, false, false, false, WG, float, WS> C; typedef pigo::COO<u32, u32, S, true, false, false, WG, float, WS> CY; typedef pigo::CSR<u32, u32, S, S, WG, float, WS> R; typedef pigo::DiGraph<u32, u32, S, S, WG, float, WS> D; typedef pigo::Matrix<u32, u32, S, S, WG, float, WS> M;
    the_dir(); rm_all("."); put_file("bystander", "x\n"); set_old("bystander"); Mat m = gen_mat<float>(r, r.below(cap), 500, WG); if (WG) for (auto& e : m.e) e.w = wbits<float>((float)r.below(50));
    int t = pick_threads(r); set_threads(t);
#ifdef _OPENMP
    int dyn = (int)r.below(2); if (!rt_regions) omp_set_dynamic(dyn);
    struct Dyn { ~Dyn() { if (!rt_regions) omp_set_dynamic(0); } } restore;
#endif
    label("memory threads=" + std::to_string(t) + (WG ? " weighted " : " ") + desc(m)); seen("inputs", hash_mat(m) ^ mix(t * 8 + K * 2 + WG));
    C c((u32)m.n, (u32)m.nr, (u32)m.nc, (u32)m.e.size()); fill_coo(c, m, WG); u64 d = Cls<C>::dig(c);
    Box<R> br(0x11); watched("converting to compressed rows", "", false, [&] { br.make(c); }); H_CHECK(Cls<C>::dig(c) == d, "source", "converting changed the source"); R& x = br.get(); u64 dx = Cls<R>::dig(x);
    Box<C> bc(0x22); watched("converting to coordinates", "", false, [&] { bc.make(x); }); H_CHECK(Cls<R>::dig(x) == dx, "source", "converting back changed the source"); bc.get().free();
    if (m.nr == m.nc || r.chance(1, 2)) { Box<CY> by(0x33); watched("symmetrising", "", false, [&] { by.make(x); }); H_CHECK(Cls<R>::dig(x) == dx, "source", "symmetrising changed the source"); by.get().free(); }
    { Box<C> bp(0x44); watched("copying", "", false, [&] { bp.make(c); }); u64 e = Cls<C>::dig(bp.get()); H_CHECK(e == d, "copy", "a copy differs"); watched("transposing", "", false, [&] { bp.get().transpose(); }); H_CHECK(Cls<C>::dig(c) == d, "source", "transposing a copy changed its source"); bp.get().free(); }
    { Box<D> bd(0x55); watched("building a directed graph", "", false, [&] { bd.make(c); }); H_CHECK(Cls<C>::dig(c) == d, "source", "building a directed graph changed the source"); bd.get().free(); }
    { Box<M> bm(0x66); watched("building a matrix", "", false, [&] { bm.make(c); }); H_CHECK(Cls<C>::dig(c) == d, "source", "building a matrix changed the source"); bm.get().free(); }
    Csr before = read_csr(x, WG); watched("sorting", "", false, [&] { x.sort(); }); Csr after = read_csr(x, WG); sort_rows(before); sort_rows(after); cmp_rows(after, before, "sorted");
    { Box<R> bn(0x77); watched("removing duplicates", "", false, [&] { new (bn.mem) R(x.new_csr_without_dups()); bn.live = true; }); after = read_csr(x, WG); sort_rows(after); cmp_rows(after, before, "source"); bn.get().free(); }
    watched("releasing", "", false, [&] { x.free(); c.free(); });
}
H_GROUP(memory) { switch (rng.below(VARIANTS)) { case 0: memory<0, true>(rng, 600); break; case 1: memory<1, false>(rng, 600); break; default: if constexpr (VARIANTS > 2) memory<2, true>(rng, 600); } }
// Files the library refuses are left alone as well.
H_GROUP(refused) {
    the_dir(); rm_all("."); Gen g = gen_files<true>(rng, 40); typedef pigo::COO<u32, u32, u32*, false, false, false, true, float, float*> C; typedef pigo::CSR<u32, u32, u32*, u32*, true, float, float*> R; typedef pigo::DiGraph<u32, u32, u32*, u32*, true, float, float*> D; typedef pigo::Tensor<u32, u32, u32*, float, float*, true> T;
    int ft = rng.pick({(int)pigo::PIGO_COO_BIN, (int)pigo::PIGO_CSR_BIN, (int)pigo::PIGO_DIGRAPH_BIN, (int)pigo::PIGO_TENSOR_BIN, (int)pigo::MATRIX_MARKET}); std::string s = g.f[ft]; if (ft == pigo::MATRIX_MARKET) { s += "1 1 1\n"; } else s.resize(rng.range(6, s.size() - 1)); put_file("in", s); put_file("by", "x"); set_old("in"); set_old("by");
    int t = pick_threads(rng); set_threads(t); bool user = rng.chance(1, 2); label("refused kind " + std::to_string(ft) + " threads=" + std::to_string(t) + " size=" + std::to_string(s.size())); seen("inputs", hash_str(s) ^ t); bool threw = false;
    watched("refusing a file", "", user, [&] { try { switch (ft) { case pigo::PIGO_COO_BIN: { C c("in", pigo::PIGO_COO_BIN); break; } case pigo::PIGO_CSR_BIN: { R c("in", pigo::PIGO_CSR_BIN); break; } case pigo::PIGO_DIGRAPH_BIN: { D c("in", pigo::PIGO_DIGRAPH_BIN); break; } case pigo::PIGO_TENSOR_BIN: { T c("in", pigo::PIGO_TENSOR_BIN); break; } default: { C c("in", pigo::MATRIX_MARKET); } } } catch (pigo::Error&) { threw = true; } });
    H_CHECK(threw, "accepted", "a broken file was accepted"); stat("refused");
}
// Nor does anything appear where there is no file, or no usable one.
H_GROUP(absent) {
    the_dir(); rm_all("."); typedef pigo::COO<u32, u32, u32*, false, false, false, true, float, float*> C; typedef pigo::CSR<u32, u32, std::vector<u32>, std::vector<u32>> R; typedef pigo::DiGraph<u32, u32, u32*, u32*, true, float, float*> D; typedef pigo::Tensor<u32, u32, u32*, float, float*, true> T;
    std::string ext = rng.pick<std::string>({"", ".el", ".mtx", ".graph"}), fn = "in" + ext; const char* kind = "missing"; put_file("by", "1 2 3\n"); set_old("by");
    switch (rng.below(6)) { case 0: kind = "in a missing directory"; fn = "no/" + fn; break; case 1: kind = "a dangling link"; if (symlink("nowhere", fn.c_str())) _exit(9); break; case 2: kind = "a directory"; mkdir(fn.c_str(), 0755); break; case 3: kind = "empty"; put_file(fn, ""); break; case 4: kind = "below a file"; fn = "by/" + fn; break; default: break; }
    pigo::FileType ft = rng.pick({pigo::AUTO, pigo::EDGE_LIST, pigo::MATRIX_MARKET, pigo::PIGO_COO_BIN, pigo::PIGO_CSR_BIN, pigo::PIGO_DIGRAPH_BIN, pigo::PIGO_TENSOR_BIN, pigo::GRAPH});
    int t = pick_threads(rng), route = (int)rng.below(8), raised = 0; set_threads(t); bool user = rng.chance(1, 2), out = rng.chance(1, 3) && strcmp(kind, "missing") && strcmp(kind, "empty") && strcmp(kind, "a dangling link");
    char lb[120]; snprintf(lb, sizeof lb, "%s route %d, %s, type %d threads=%d", out ? "to" : "from", route, kind, (int)ft, t); label(lb); stat("evaluations"); seen("inputs", hash_str(lb));
    C c(3, 3, 3, 2); for (int i = 0; i < 2; ++i) { c.x()[i] = i; c.y()[i] = i + 1; c.w()[i] = 1; } D d(c); T tn(1, 2); for (int i = 0; i < 2; ++i) { tn.c()[i] = i; tn.w()[i] = 1; } pigo::CSR<u32, u32, u32*, u32*, true, float, float*> r(c);
    auto call = [&] { try { if (out) switch (route) { case 0: c.save(fn); break; case 1: r.save(fn); break; case 2: d.save(fn); break; case 3: tn.save(fn); break; case 4: c.write(fn); break; case 5: tn.write(fn); break; case 6: { pigo::WFile f(fn, 100); break; } default: { pigo::File f(fn, pigo::WRITE, 100); } }
        else switch (route) { case 0: { C x(fn, ft); break; } case 1: { R x(fn, ft); break; } case 2: { D x(fn, ft); break; } case 3: { T x(fn, ft); break; } case 4: { C x(fn); break; } case 5: { pigo::Matrix<u32, u32> x(fn); break; } case 6: { pigo::ROFile f(fn); break; } default: { pigo::File f(fn, pigo::READ); } } } catch (pigo::Error&) { raised = 1; } };
    watched(out ? "a refused output" : "a missing input", "", user, call); H_CHECK(raised, "accepted", "%s: no error", lb); stat(out ? "outputs_refused" : "inputs_refused"); c.free(); d.free(); tn.free(); r.free();
}
