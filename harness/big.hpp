// Objects and files beyond 2^32 bytes or entries, at little cost.
#pragma once
#include "h.hpp"
#include <sys/mman.h>
#include <sys/statvfs.h>
#include <sys/sysinfo.h>
namespace h {
// `n` bytes that repeat one block; the mapping is private, so that single places can be set.
struct Rep {
    char* p = nullptr; size_t n = 0, P = 0; std::string block;
    Rep(Rng& r, size_t bytes, u64 lim, size_t width = 1, size_t blocksz = 32u << 20) : P(blocksz) {
        n = (bytes + P - 1) / P * P; block.resize(P); for (size_t i = 0; i < P; i += width) { u64 v = lim ? r.below(lim) : r.next(); memcpy(&block[i], &v, width); }
        std::string fn = new_file(block); int fd = open(fn.c_str(), O_RDONLY); p = (char*)mmap(nullptr, n, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) _exit(9);
        for (size_t o = 0; o < n; o += P) if (mmap(p + o, P, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_FIXED | MAP_NORESERVE, fd, 0) == MAP_FAILED) _exit(9);
        close(fd);
    }
    Rep(const Rep&) = delete;
    ~Rep() { munmap(p, n); }
};
inline bool roomy(u64 disk, u64 mem) {       // is there room for such a case here?
    struct statvfs v; struct sysinfo si; if (disk && (statvfs(st().scratch.c_str(), &v) || (u64)v.f_bavail * v.f_frsize < disk + (2ull << 30))) { stat("huge_skipped"); return false; }
    u64 avail = 0; FILE* f = fopen("/proc/meminfo", "r"); char l[200]; while (f && fgets(l, sizeof l, f)) { unsigned long long k; if (sscanf(l, "MemAvailable: %llu", &k) == 1) avail = k * 1024; } if (f) fclose(f); (void)si;
    if (avail < mem + (2ull << 30)) { stat("huge_skipped"); return false; } return true;
}
inline const char* map_file(const std::string& fn, size_t& n) { int fd = open(fn.c_str(), O_RDONLY); struct stat sb; if (fd < 0 || fstat(fd, &sb)) fail("no-file", "no file"); n = (size_t)sb.st_size; const char* p = (const char*)mmap(nullptr, n, PROT_READ, MAP_PRIVATE, fd, 0); close(fd); if (p == MAP_FAILED) fail("no-file", "empty file"); return p; }
// First difference of two regions, or n.
inline size_t differ(const char* a, const char* b, size_t n) {
    const size_t C = 1 << 24; size_t nc = (n + C - 1) / C; size_t first = n;
#ifdef _OPENMP
    int keep = omp_get_max_threads(); omp_set_num_threads(8);
#endif
    #pragma omp parallel for schedule(dynamic)
    for (size_t k = 0; k < nc; ++k) { size_t o = k * C, e = std::min(n, o + C); if (!memcmp(a + o, b + o, e - o)) continue; while (a[o] == b[o]) ++o;
        #pragma omp critical
        if (o < first) first = o; }
#ifdef _OPENMP
    omp_set_num_threads(keep);
#endif
    return first;
}
// A text file of head, a hole of more than 4 GiB, and tail.
inline std::string holed(Rng& r, const std::string& head, const std::string& tail, const char* ext) {
    std::string fn = tmp_name(ext); put_file(fn, head); u64 total = (4ull << 30) + r.range(1, 100000); if (truncate(fn.c_str(), (off_t)total) != 0) { stat("huge_skipped"); return ""; }
    int fd = open(fn.c_str(), O_WRONLY | O_APPEND); if (fd < 0 || ::write(fd, tail.data(), tail.size()) != (ssize_t)tail.size()) _exit(9); close(fd); stat("huge_bytes", total); return fn;
}
} // namespace h
