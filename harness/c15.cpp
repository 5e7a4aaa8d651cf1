// C15: no memory error or undefined behaviour. The oracles are the sanitizers and
// memcheck this is run under, guard pages after file mappings, and the comparison of runs
// that differ only in what fresh memory contains.
#include "h.hpp"
#include "guard.hpp"
#include "combos.hpp"
#include <csignal>
#include <sys/wait.h>
#include <ucontext.h>
#if H_ASAN
extern "C" void __asan_set_error_report_callback(void (*)(const char*));
#endif
using namespace h;

static std::vector<ops::Combo>& all() { static std::vector<ops::Combo> cs = ops::combos(); return cs; }
struct Teams { Rng r; int hi; Teams(u64 s, int u) : r(s), hi(u) {} static void step(void* p, unsigned) { Teams& x = *(Teams*)p; set_threads(x.hi == 1 ? 1 : x.hi == 2 ? (int)x.r.range(1, 2) : pick_threads(x.r)); } };
struct Pick { const ops::Combo* c; unsigned k; u64 seed; int wk; u64 ml; size_t mm; };
static Pick pick(Rng& r, u64 ml, size_t mm) {
    Pick p; p.c = &all()[r.below(all().size())]; p.k = (unsigned)r.below(14); p.seed = r.next(); p.wk = (int)r.below(p.c->wk + 1); p.ml = std::min(ml, ops::class_labels(p.c->cls)); p.mm = std::min(mm, ops::class_entries(p.c->cls));
    label(std::string(ops::group_name(p.k)) + " types " + p.c->name + " seed " + std::to_string(p.seed)); return p;
}
static ops::Log once(const Pick& p, int hi, bool guarded = true) { ops::Env e(p.seed, p.ml, p.mm, p.wk, st().scratch); Teams tm(mix(p.seed), hi); e.step = Teams::step; e.arg = &tm; if (!guarded) return p.c->fn(e, p.k); guard::Scope g; return p.c->fn(e, p.k); }
static void tally(const Pick& p, size_t steps) { H_CHECK(steps, "nothing", "no observations"); stat(std::string("op_") + ops::group_name(p.k)); stat("steps", steps); stat("evaluations"); seen("inputs", mix(p.seed ^ p.k)); seen("combo_op", mix(p.c->id * 100 + p.k)); }
static void go(Rng& r, u64 ml, size_t mm, int hi) { Pick p = pick(r, ml, mm); tally(p, once(p, hi).size()); }
H_GROUP(small) { go(rng, rng.chance(1, 2) ? 12 : 60, rng.chance(1, 2) ? 12 : 50, 99); }
H_GROUP(medium) { go(rng, rng.chance(1, 2) ? 200 : 3000, 1200, 99); }
H_GROUP(large) { go(rng, 40000, 9000, 99); }
// Under memcheck: every digest is used in a branch, so that an undefined value is reported.
static volatile u64 sink;
static void used(const ops::Log& l) { for (auto& x : l) { if (x.second == 0x1234567) sink = 1; else sink = 2; } }
H_GROUP(memcheck) { guard::no_direct(); Pick p = pick(rng, rng.chance(1, 2) ? 12 : 60, rng.chance(1, 2) ? 12 : 40); ops::Log l = once(p, 2, false); used(l); tally(p, l.size()); }
// Fresh memory holds one pattern, then another.
#if !H_ASAN
static void churn(unsigned char v) {   // leaves the pattern in freed blocks and on the stack as well
    mallopt(M_PERTURB, 0); std::vector<void*> b; for (size_t s = 16; s <= 1 << 17; s *= 2) for (int i = 0; i < 12; ++i) { void* q = malloc(s - 8); memset(q, v, s - 8); b.push_back(q); }
    for (void* q : b) free(q);
    unsigned char st[16384]; memset(st, v, sizeof st); sink = st[sink & 16383];
    mallopt(M_PERTURB, (unsigned char)~v);
}
H_GROUP(fill) {
    unsigned q = (unsigned)rng.below(4); Pick p = pick(rng, q == 0 ? 12 : q == 1 ? 60 : q == 2 ? 300 : 3000, q == 0 ? 12 : q == 1 ? 50 : q == 2 ? 200 : 1500); ops::Log ref;
    static const unsigned char pat[] = {0x01, 0xff, 0x55, 0x80};
    for (int i = 0; i < 4; ++i) { churn(pat[i]); ops::Log l = once(p, 99); if (!i) ref = l; else { std::string d = ops::diff(ref, l); H_CHECK(d.empty(), "uninitialised", "the result depends on what fresh memory held: %s", d.c_str()); } stat("comparisons", l.size()); }
    tally(p, ref.size());
}
#endif
// Files of any content, ending right before an inaccessible page (or a poisoned tail): every
// outcome is fine except touching a byte past the end. Each case runs in a process of its own.
static char* volatile g_end; static int g_pipe;
static void past(const char* how) { if (write(g_pipe, how, strlen(how))) {} _exit(50); }
static void on_segv(int, siginfo_t* si, void*) { std::pair<char*, char*> r = guard::near_map((char*)si->si_addr); if (r.first) past("read past the end of the mapping"); _exit(51); }
#if H_ASAN
static void on_report(const char* t) { if (strstr(t, "use-after-poison")) past("read of poisoned bytes after the end of the file"); _exit(52); }
#endif
static std::string noise(Rng& r, size_t n, unsigned kind) {
    static const char* sets[] = {"0123456789 \n", "0123456789 \n\t\r#%.-+eE", "12 \n#%", "0123456789.eE+- \n", "ab#%\n\r\0 1", "1 2\n"}; std::string s; const char* a = sets[kind % 6]; size_t k = kind % 6 == 4 ? 9 : strlen(a);
    while (s.size() < n) { unsigned q = (unsigned)r.below(12); if (q == 0) s += "%%MatrixMarket matrix coordinate real general\n3 3 2\n"; else if (q == 1) s += std::to_string(r.below(40)) + " " + std::to_string(r.below(40)) + "\n"; else if (q == 2) s += "# c"; else for (size_t i = r.below(9); i-- > 0;) s += a[r.below(k)]; }
    // no long digit strings: labels stay moderate
    unsigned run = 0; for (char& c : s) { if (c >= '0' && c <= '9') { if (++run > 5) { c = ' '; run = 0; } } else run = 0; }
    s.resize(n); return s;
}
static std::string tail(Rng& r) { static const char* t[] = {"1", "1 ", "1 2", "1 2 3", "1 2 -", "1 2 3.", "1 2 3.5", "1 2 3e", "1 2 3e-", "1 2 .", "#", "# x", "%", "1 2 #", "\n", "\r", "1 2\r", "-", "+", "1 -", ".", "e", "1 2 1e5", "\n\n", "\n#", " ", "\t"}; return t[r.below(sizeof t / sizeof *t)]; }
H_GROUP(ends) {
    unsigned kind = (unsigned)rng.below(6), route = (unsigned)rng.below(10); size_t n = rng.chance(3, 5) || !H_ASAN ? 4096 * (1 + rng.below(2)) : 1 + rng.below(300); if (route == 3) n = std::min<size_t>(n, 4096); std::string s;
    switch (rng.below(4)) { case 0: s = noise(rng, n, kind); break; default: { std::string t = tail(rng); if (t.size() > n) t.resize(n); s = noise(rng, n - t.size(), kind); if (!s.empty()) s.back() = '\n'; s += t; } }
    const char* suf = route == 3 ? ".graph" : route == 4 ? ".mtx" : ""; if (route == 4 && s.size() > 60) { std::string hd = "%%MatrixMarket matrix coordinate real general\n30 30 9\n"; s.replace(0, hd.size(), hd); }
    if (route == 8) { static const char* hd[] = {"PIGO-COO-v1", "PIGO-CSR-v1", "PIGO-DiGraph-v1", "PIGO-Tensor-v1", "PIGO"}; std::string q = hd[rng.below(5)]; s = q.substr(0, rng.chance(1, 2) ? q.size() : 1 + rng.below(q.size())); }
    std::string f = new_file(s, suf); int t = (int)rng.range(1, 4); u64 at = rng.below(s.size()); char ch = "\n 1#"[rng.below(4)]; std::string want = s.substr(at, rng.below(12)) + (rng.chance(1, 2) ? "xyz" : "");
    char b[120]; snprintf(b, sizeof b, "route=%u kind=%u length=%zu threads=%d at=%llu end='%.20s'", route, kind, s.size(), t, (unsigned long long)at, s.substr(s.size() > 16 ? s.size() - 16 : 0).c_str()); label(b);
    int p[2]; if (pipe(p)) _exit(9); fflush(stdout); pid_t pid = fork(); H_CHECK(pid >= 0, "harness", "fork");
    if (!pid) {
        running() = false; close(p[0]); g_pipe = p[1]; alarm(60); int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); dup2(dn, 2);
#if H_ASAN
        __asan_set_error_report_callback(on_report);
#else
        struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_segv; sa.sa_flags = SA_SIGINFO; sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0);
#endif
        set_threads(t); guard::arm();
        try { switch (route) {
            case 0: { pigo::COO<> c(f, pigo::EDGE_LIST); c.free(); break; }
            case 1: { pigo::WCOO<> c(f, pigo::EDGE_LIST); c.free(); break; }
            case 2: { pigo::COO<u32, u32, u32*, true, false, true, true, int> c(f, pigo::EDGE_LIST); c.free(); break; }
            case 3: { pigo::CSR<> c(f, pigo::GRAPH); c.free(); break; }
            case 4: { pigo::WCOO<> c(f, pigo::AUTO); c.free(); break; }
            case 5: { pigo::Tensor<u32, u32, u32*, float, float*, true> c(f); c.free(); break; }
            case 6: { pigo::Tensor<u32, u32, u32*, float, float*, false> c(f); c.free(); break; }
            case 7: { pigo::ROFile r(f); r.seek(at); r.read(want); pigo::FileReader q = r.reader(); (void)q; r.read<u64>(); break; }
            case 8: { pigo::ROFile r(f); if (r.guess_file_type() == pigo::AUTO) _exit(3); pigo::COO<> c(f); c.free(); break; }
            default: { pigo::ROFile r(f); r.seek(at); pigo::FileReader q = r.reader(); pigo::Tensor<u64, u64> x = q.find_offsets<pigo::Tensor<u64, u64>>(ch); x.free(); }
        } } catch (std::exception&) { _exit(4); }
        _exit(0);
    }
    close(p[1]); char msg[200]; ssize_t k = read(p[0], msg, sizeof msg - 1); close(p[0]); int ws = 0; waitpid(pid, &ws, 0); msg[k > 0 ? k : 0] = 0;
    H_CHECK(!(WIFEXITED(ws) && WEXITSTATUS(ws) == 50), "past-end", "%s", msg);
    if (getenv("C15_SHOW") && (WIFSIGNALED(ws) || WEXITSTATUS(ws) > 50)) { printf("ODD %d %s\n", ws, b); put_file(std::string(getenv("C15_SHOW")) + "/odd" + std::to_string(st().cur) + suf, s); }
    stat(WIFEXITED(ws) ? "ended_" + std::to_string(WEXITSTATUS(ws)) : "signal_" + std::to_string(WTERMSIG(ws))); stat("route_" + std::to_string(route)); stat("evaluations"); seen("inputs", hash_str(s) ^ mix(route * 16 + t));
}
