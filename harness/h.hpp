// Shared support for the workload+oracle programs: random source, case runner,
// statistics, failure reporting, scratch files, object construction helpers.
#pragma once
#include "pigo.hpp"

#include <algorithm>
#include <cinttypes>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <new>
#include <set>
#include <string>
#include <type_traits>
#include <unordered_set>
#include <vector>
#include <cerrno>
#include <locale>
#include <malloc.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <unistd.h>
#ifdef _OPENMP
#include <omp.h>
#endif

// Provided by our own OpenMP runtime (tsan/sched variants); absent elsewhere.
extern "C" {
    void rt_seed(uint64_t) __attribute__((weak));
    void rt_vary(int) __attribute__((weak));
    uint64_t rt_schedule_hash() __attribute__((weak));
    uint64_t rt_switches() __attribute__((weak));
    uint64_t rt_regions() __attribute__((weak));
    uint64_t rt_barriers() __attribute__((weak));
}

#if defined(__SANITIZE_ADDRESS__)
#define H_ASAN 1
#else
#define H_ASAN 0
#endif
#if defined(__SANITIZE_THREAD__)
#define H_INSTR 1
#else
#define H_INSTR 0
#endif

namespace h {
typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint16_t u16; typedef uint8_t u8;

inline u64 mix(u64 x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
inline u64 hash_bytes(const void* p, size_t n, u64 h = 1469598103934665603ull) { const u8* b = (const u8*)p; for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 1099511628211ull; } return h; }
inline u64 hash_str(const std::string& s) { return hash_bytes(s.data(), s.size()); }

struct Rng {
    u64 s;
    explicit Rng(u64 seed = 1) : s(seed) {}
    u64 next() { s += 0x9e3779b97f4a7c15ull; u64 z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
    u64 below(u64 n) { return n ? next() % n : 0; }
    u64 range(u64 a, u64 b) { return a + below(b - a + 1); }   // inclusive
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    double unit() { return (double)(next() >> 11) / 9007199254740992.0; }
    template<class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    template<class T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
};

struct CaseFail { };

struct State {
    std::string prog, group, scratch, hashes, progress;
    u64 seed = 1; long from = 0, to = -1; long only = -1; double budget = 1e18; int maxfail = 5;
    bool thorough = false;
    long cur = -1; long fails = 0; std::string label;
    std::map<std::string, u64> stats; std::map<std::string, std::unordered_set<u64>> seen;
    std::vector<std::string> tmpfiles; unsigned fileno = 0; FILE* prog_f = nullptr;
};
inline State& st() { static State s; return s; }

inline void stat(const std::string& k, u64 n = 1) { st().stats[k] += n; }
inline void stat_max(const std::string& k, u64 n) { u64& v = st().stats["max:" + k]; if (n > v) v = n; }
inline void seen(const std::string& k, u64 hsh) { st().seen[k].insert(hsh); }
// Details that identify the running case; printed with a failure.
inline void label(const std::string& s) { st().label = s; }

__attribute__((format(printf, 2, 3), noreturn))
inline void fail(const char* key, const char* fmt, ...) {
    char buf[1024]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    for (char* p = buf; *p; ++p) if (*p == '\n' || *p == '\r') *p = '~';
    std::string l = st().label; for (char& c : l) if (c == '\n' || c == '\r') c = '~';
    printf("FAIL key=%s group=%s case=%ld label=[%s] %s\n", key, st().group.c_str(), st().cur, l.c_str(), buf); fflush(stdout);
    ++st().fails;
    throw CaseFail();
}
#define H_CHECK(cond, key, ...) do { if (!(cond)) ::h::fail(key, __VA_ARGS__); } while (0)

// ---- scratch files ----
inline std::string tmp_name(const std::string& suffix = "") {
    std::string p = st().scratch + "/f" + std::to_string(st().fileno++) + suffix;
    st().tmpfiles.push_back(p); return p;
}
// Names are used again by the next case, with other content.
inline void drop_tmp() { for (auto& p : st().tmpfiles) unlink(p.c_str()); st().tmpfiles.clear(); st().fileno = 0; }
inline void put_file(const std::string& fn, const std::string& s) {
    int fd = open(fn.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    if (fd < 0) { perror(fn.c_str()); _exit(9); }
    size_t o = 0; while (o < s.size()) { ssize_t r = ::write(fd, s.data() + o, s.size() - o); if (r <= 0) { perror("write"); _exit(9); } o += r; }
    close(fd);
}
inline std::string new_file(const std::string& s, const std::string& suffix = "") { auto n = tmp_name(suffix); put_file(n, s); return n; }
inline std::string get_file(const std::string& fn) {
    std::string s; int fd = open(fn.c_str(), O_RDONLY); if (fd < 0) return s;
    char b[65536]; ssize_t r; while ((r = ::read(fd, b, sizeof b)) > 0) s.append(b, r); close(fd); return s;
}
inline bool exists(const std::string& fn) { struct stat sb; return ::stat(fn.c_str(), &sb) == 0; }

// ---- teams ----
inline void set_threads(int n) {
#ifdef _OPENMP
    omp_set_num_threads(n);
#endif
    (void)n;
}
inline int pick_threads(Rng& r) {
    static const int small[] = {1, 2, 3, 4, 5, 7, 8};
    int t;
    unsigned q = (unsigned)r.below(16);
    if (q < 11) t = small[r.below(7)];
    else if (q < 14) t = (int)r.range(2, 12);
    else t = (int)r.range(13, H_INSTR ? 17 : 40);
    if (!H_INSTR && r.chance(1, 150)) t = (int)r.range(41, 140);
    return t;
}

// ---- storage helpers (only public accessors are used on library objects) ----
template<class T> T* raw(T* p) { return p; }
template<class T> T* raw(std::vector<T>& v) { return v.data(); }
template<class T> T* raw(std::shared_ptr<T>& v) { return v.get(); }
template<class L, int K> struct StoreOf;                       // 0 pointer, 1 vector, 2 shared_ptr
template<class L> struct StoreOf<L, 0> { typedef L* type; };
template<class L> struct StoreOf<L, 1> { typedef std::vector<L> type; };
template<class L> struct StoreOf<L, 2> { typedef std::shared_ptr<L> type; };
template<class L, int K> using Store = typename StoreOf<L, K>::type;

// Holds an object built in a byte-patterned buffer, so that a member left
// uninitialised has a value that depends on the pattern.
template<class T> struct Box {
    alignas(T) unsigned char mem[sizeof(T)];
    bool live = false;
    Box(int pat) { memset(mem, pat, sizeof mem); }
    template<class... A> T& make(A&&... a) { T* p = new (mem) T(std::forward<A>(a)...); live = true; return *p; }
    T& get() { return *(T*)mem; }
    ~Box() { if (live) ((T*)mem)->~T(); }
    Box(const Box&) = delete;
};
inline int pick_pattern(Rng& r) { return r.pick({0x00, 0xff, 0xa5, 0x5a, 0x01, 0x7f}); }

template<class T> const char* tname();
#define H_TN(T, s) template<> inline const char* tname<T>() { return s; }
H_TN(u8, "u8") H_TN(u16, "u16") H_TN(u32, "u32") H_TN(u64, "u64") H_TN(int8_t, "i8") H_TN(int16_t, "i16") H_TN(int32_t, "i32") H_TN(int64_t, "i64") H_TN(float, "f32") H_TN(double, "f64")

// ---- groups ----
typedef void (*CaseFn)(Rng&);
struct Group { const char* name; CaseFn fn; };
inline std::vector<Group>& groups() { static std::vector<Group> g; return g; }
// With H_SEL naming some groups, only those are compiled (to spread slow compilations).
struct Reg { Reg(const char* n, CaseFn f) { if (f) groups().push_back({n, f}); } };
#ifdef H_SEL
constexpr bool selected(const char* n) { const char* s = "," H_SEL ","; for (; *s; ++s) if (*s == ',') { int i = 0; while (n[i] && s[1 + i] == n[i]) ++i; if (!n[i] && s[1 + i] == ',') return true; } return false; }
#else
constexpr bool selected(const char*) { return true; }
#endif
template<bool S, template<int> class G> CaseFn group_fn() { if constexpr (S) return &G<0>::f; else return nullptr; }
#define H_GROUP(name) template<int> struct Grp_##name { static void f(::h::Rng&); }; static ::h::Reg reg_##name(#name, ::h::group_fn<::h::selected(#name), Grp_##name>()); template<int I_> void Grp_##name<I_>::f(::h::Rng& rng)

inline double now() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }

// Settings of the surrounding program that must not matter to any result.
struct Comma : std::numpunct<char> { char do_decimal_point() const override { return ','; } char do_thousands_sep() const override { return '.'; } std::string do_grouping() const override { return "\1"; } std::string do_truename() const override { return "ja"; } std::string do_falsename() const override { return "nein"; } };
struct Ambient {
    bool loc, dyn;
    explicit Ambient(u64 s) : loc(s % 6 == 0), dyn(s / 6 % 6 == 0) {
        if (loc) { std::locale::global(std::locale(std::locale::classic(), new Comma)); stat("cases_with_comma_locale"); }
#ifdef _OPENMP
        if (dyn) { omp_set_dynamic(1); stat("cases_with_dynamic_teams"); }
#endif
        static const int e[] = {0, ERANGE, EINTR, EINVAL, ENOENT}; errno = e[s / 36 % 5];
    }
    ~Ambient() {
        if (loc) std::locale::global(std::locale::classic());
#ifdef _OPENMP
        if (dyn) omp_set_dynamic(0);
#endif
    }
};

// The library must never end the process.
inline bool& running() { static bool r = false; return r; }
inline void at_exit() { if (running()) { printf("FAIL key=process-ended group=%s case=%ld label=[%s] the process was ended from inside the library\n", st().group.c_str(), st().cur, st().label.c_str()); fflush(stdout); } }
inline int main_(int argc, char** argv) {
    State& s = st(); s.prog = argv[0];
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i]; auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--seed") s.seed = strtoull(val().c_str(), 0, 10);
        else if (a == "--group") s.group = val();
        else if (a == "--from") s.from = atol(val().c_str());
        else if (a == "--to") s.to = atol(val().c_str());
        else if (a == "--only") s.only = atol(val().c_str());
        else if (a == "--budget") s.budget = atof(val().c_str());
        else if (a == "--scratch") s.scratch = val();
        else if (a == "--hashes") s.hashes = val();
        else if (a == "--progress") s.progress = val();
        else if (a == "--thorough") s.thorough = true;
        else if (a == "--list") { for (auto& g : groups()) printf("%s\n", g.name); return 0; }
        else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 9; }
    }
    if (s.scratch.empty()) { fprintf(stderr, "need --scratch\n"); return 9; }
    mkdir(s.scratch.c_str(), 0755);
    CaseFn fn = nullptr; for (auto& g : groups()) if (s.group == g.name) fn = g.fn;
    if (!fn) { fprintf(stderr, "no group %s\n", s.group.c_str()); return 9; }
    int pfd = s.progress.empty() ? -1 : open(s.progress.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    double t0 = now();
    if (s.only >= 0) { s.from = s.only; s.to = s.only + 1; }
    u64 gh = hash_str(s.group); atexit(at_exit); running() = true;
    for (long c = s.from; (s.to < 0 || c < s.to) && now() - t0 < s.budget && s.fails < s.maxfail; ++c) {
        s.cur = c; s.label.clear();
        if (pfd >= 0) { char b[32]; int n = snprintf(b, sizeof b, "%-20ld", c); if (pwrite(pfd, b, n, 0)) {} }
        u64 cs = mix(mix(s.seed) ^ gh ^ mix((u64)c * 0x9e37 + 11));
        Rng r(cs);
#if !H_ASAN
        mallopt(M_PERTURB, (int)(1 + (cs >> 7) % 254));
#endif
        if (rt_seed) rt_seed(cs ^ 0x5555);
        try { Ambient a(mix(cs ^ 0xa3b1)); fn(r); }
        catch (CaseFail&) { }
        catch (std::exception& e) {
            try { fail("unexpected-exception", "%s", e.what()); } catch (CaseFail&) { }
        }
        catch (...) { try { fail("unexpected-exception", "non-standard"); } catch (CaseFail&) { } }
        if (rt_schedule_hash) seen("schedules", rt_schedule_hash());
        if (c < s.from + 2 && !s.label.empty()) { std::string l = s.label.substr(0, 400); for (char& ch : l) if ((unsigned char)ch < 32 || (unsigned char)ch > 126) ch = ch == '\n' ? '~' : '?'; printf("SAMPLE group=%s case=%ld %s\n", s.group.c_str(), c, l.c_str()); }
        stat("cases"); drop_tmp();
    }
    running() = false;
    if (rt_switches) stat("scheduler_switches", rt_switches());
    if (rt_regions) stat("parallel_regions", rt_regions());
    if (rt_barriers) stat("barriers_passed", rt_barriers());
    for (auto& k : s.stats) { std::string n = k.first; for (char& c : n) if (c == ' ') c = '_'; printf("STAT %s %" PRIu64 "\n", n.c_str(), k.second); }
    if (!s.hashes.empty()) {
        FILE* f = fopen(s.hashes.c_str(), "wb");
        if (f) { for (auto& k : s.seen) for (u64 v : k.second) fprintf(f, "%s %016" PRIx64 "\n", k.first.c_str(), v); fclose(f); }
    }
    printf("DONE %ld\n", s.fails); fflush(stdout);
    return s.fails ? 1 : 0;
}
} // namespace h

#ifndef H_NO_MAIN
int main(int argc, char** argv) { return h::main_(argc, argv); }
#endif
