#include "guard.hpp"
#include <atomic>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <map>
#include <mutex>
#include <set>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#define POISON(p, n) ASAN_POISON_MEMORY_REGION(p, n)
#define UNPOISON(p, n) ASAN_UNPOISON_MEMORY_REGION(p, n)
#else
#define POISON(p, n) (void)0
#define UNPOISON(p, n) (void)0
#endif
namespace {
    std::atomic<int> armed{0}; bool nodirect = false;
    std::mutex mu;
    struct Map { size_t len, total; };
    std::map<char*, Map>& maps() { static auto* m = new std::map<char*, Map>; return *m; }
    std::set<FILE*>& files() { static auto* m = new std::set<FILE*>; return *m; }
    std::set<int>& fds() { static auto* m = new std::set<int>; return *m; }
    std::string& errs() { static auto* m = new std::string; return *m; }
    uint64_t nmaps = 0; long ncalls = 0, failk = -1; int fhow = 0; bool hit = false; const char* fname = "";
    // true if this call has to fail
    bool fault(const char* n) { std::lock_guard<std::mutex> l(mu); long c = ncalls++; if (c == failk) { hit = true; fname = n; return true; } return fhow == 1 && hit && !strcmp(n, fname); }   // fhow 1: later calls of the name fail, too
    size_t pg(size_t n) { return (n + 4095) & ~(size_t)4095; }
}
extern "C" {
    void* __real_mmap(void*, size_t, int, int, int, off_t); int __real_munmap(void*, size_t);
    int __real_open(const char*, int, ...); FILE* __real_fopen(const char*, const char*); FILE* __real_fdopen(int, const char*);
    int __real_fseeko(FILE*, off_t, int); off_t __real_ftello(FILE*); int __real_fputc(int, FILE*); int __real_fclose(FILE*);
    int __real_madvise(void*, size_t, int); int __real_close(int); int __real_ftruncate(int, off_t); int __real_fstat(int, struct stat*);
    int __real_putc(int, FILE*); size_t __real_fwrite(const void*, size_t, size_t, FILE*); off_t __real_lseek(int, off_t, int);

    void* __wrap_mmap(void* a, size_t n, int prot, int flags, int fd, off_t off) {
        if (nodirect && fd >= 0) fcntl(fd, F_SETFL, fcntl(fd, F_GETFL) & ~O_DIRECT);
        if (!armed) return __real_mmap(a, n, prot, flags, fd, off);
        if (fault("mmap")) { errno = ENOMEM; return MAP_FAILED; }
        if (fd < 0 || n == 0 || a) return __real_mmap(a, n, prot, flags, fd, off);
        size_t t = pg(n) + 8192;
        char* base = (char*)__real_mmap(nullptr, t, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (base == MAP_FAILED) return MAP_FAILED;
        void* p = __real_mmap(base + 4096, n, prot, flags | MAP_FIXED, fd, off);
        if (p == MAP_FAILED) { int e = errno; __real_munmap(base, t); errno = e; return MAP_FAILED; }
        base += 4096;
        POISON(base + n, pg(n) - n);
        std::lock_guard<std::mutex> l(mu);
        maps()[base] = {n, t}; ++nmaps;
        return base;
    }
    int __wrap_munmap(void* p, size_t n) {
        {
            std::lock_guard<std::mutex> l(mu);
            auto it = maps().find((char*)p);
            if (it != maps().end()) {
                if (it->second.len != n) errs() += "munmap with wrong length; ";
                Map m = it->second; maps().erase(it); UNPOISON((char*)p, pg(m.len));
                return __real_munmap((char*)p - 4096, m.total);
            }
            if (armed) { errs() += "munmap of a region that is not mapped (double unmap); "; errno = EINVAL; return -1; }
        }
        return __real_munmap(p, n);
    }
    int __wrap_open(const char* f, int fl, ...) {
        mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, int); va_end(ap); }
        if (!armed) return __real_open(f, fl, m);
        if (fault("open")) { errno = EMFILE; return -1; }
        int r = __real_open(f, fl, m); if (r >= 0) { std::lock_guard<std::mutex> l(mu); fds().insert(r); } return r;
    }
    int __wrap_open64(const char* f, int fl, ...) {
        mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, int); va_end(ap); }
        return __wrap_open(f, fl, m);
    }
    FILE* __wrap_fopen(const char* f, const char* m) {
        if (!armed) return __real_fopen(f, m);
        if (fault("fopen")) { errno = EMFILE; return nullptr; }
        FILE* r = __real_fopen(f, m); if (r) { std::lock_guard<std::mutex> l(mu); files().insert(r); } return r;
    }
    FILE* __wrap_fopen64(const char* f, const char* m) { return __wrap_fopen(f, m); }
    FILE* __wrap_fdopen(int fd, const char* m) {
        if (!armed) return __real_fdopen(fd, m);
        if (fault("fdopen")) { errno = ENOMEM; return nullptr; }
        FILE* r = __real_fdopen(fd, m); if (r) { std::lock_guard<std::mutex> l(mu); fds().erase(fd); files().insert(r); } return r;
    }
    int __wrap_fseeko(FILE* f, off_t o, int w) { if (armed && fault("fseeko")) { errno = EIO; return -1; } return __real_fseeko(f, o, w); }
    int __wrap_fseeko64(FILE* f, off_t o, int w) { return __wrap_fseeko(f, o, w); }
    off_t __wrap_ftello(FILE* f) { if (armed && fault("ftello")) { errno = EIO; return -1; } return __real_ftello(f); }
    off_t __wrap_ftello64(FILE* f) { return __wrap_ftello(f); }
    int __wrap_fputc(int c, FILE* f) { if (armed && fault("fputc")) { errno = ENOSPC; return EOF; } return __real_fputc(c, f); }
    int __wrap_putc(int c, FILE* f) { if (armed && fault("putc")) { errno = ENOSPC; return EOF; } return __real_putc(c, f); }
    size_t __wrap_fwrite(const void* p, size_t a, size_t b, FILE* f) { if (armed && fault("fwrite")) { errno = ENOSPC; return 0; } return __real_fwrite(p, a, b, f); }
    int __wrap_fclose(FILE* f) {
        { std::lock_guard<std::mutex> l(mu); files().erase(f); }
        if (armed && fault("fclose")) { __real_fclose(f); errno = EIO; return EOF; }
        return __real_fclose(f);
    }
    int __wrap_close(int fd) { { std::lock_guard<std::mutex> l(mu); fds().erase(fd); } return __real_close(fd); }
    int __wrap_madvise(void* p, size_t n, int a) { if (armed && fault("madvise")) { errno = EAGAIN; return -1; } return __real_madvise(p, n, a); }
    int __wrap_ftruncate(int fd, off_t n) { if (armed && fault("ftruncate")) { errno = EIO; return -1; } return __real_ftruncate(fd, n); }
    int __wrap_ftruncate64(int fd, off_t n) { return __wrap_ftruncate(fd, n); }
    int __wrap_fstat(int fd, struct stat* s) { if (armed && fault("fstat")) { errno = EIO; return -1; } return __real_fstat(fd, s); }
    off_t __wrap_lseek(int fd, off_t o, int w) { if (armed && fault("lseek")) { errno = EIO; return -1; } return __real_lseek(fd, o, w); }
}
namespace guard {
    void no_direct() { nodirect = true; }
    void arm() { ++armed; }
    void disarm() { --armed; }
    std::pair<char*, char*> near_map(char* a) { for (auto& m : maps()) { char* e = m.first + pg(m.second.len); if (a >= e && a < e + 4096) return {m.first, m.first + m.second.len}; } return {nullptr, nullptr}; }
    size_t live_maps() { std::lock_guard<std::mutex> l(mu); return maps().size(); }
    uint64_t total_maps() { std::lock_guard<std::mutex> l(mu); return nmaps; }
    std::string take_errors() { std::lock_guard<std::mutex> l(mu); std::string s = errs(); errs().clear(); return s; }
    size_t open_streams() { std::lock_guard<std::mutex> l(mu); return files().size() + fds().size(); }
    void reset() { std::lock_guard<std::mutex> l(mu); files().clear(); fds().clear(); errs().clear(); }
    void fail_at(long k, int how) { std::lock_guard<std::mutex> l(mu); failk = k; fhow = how; hit = false; ncalls = 0; fname = ""; }
    bool fault_hit() { return hit; }
    long calls() { return ncalls; }
    const char* fault_name() { return fname; }
}
