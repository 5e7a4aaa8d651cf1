// Hooks on the memory requests of the code compiled here (linked with --wrap): refusal and accounting.
#pragma once
#include <atomic>
#include <cstdlib>
#include <malloc.h>
#include <new>
#include <unistd.h>
// ---- the memory of the code compiled here: single requests of data size can be refused ----
namespace mem {
    static const size_t DATA = 3000;        // smaller requests are not for the data of an object
    static std::atomic<bool> on{false}; static std::atomic<int> paused{0}; static std::atomic<long> count{0}, at{-1}; static std::atomic<bool> sticky{false}, hit{false}; static std::atomic<long> live{0}, peak{0}, result{0}, delays{0};
    static inline bool refuse(size_t n) { if (!on || paused || n < DATA) return false; long k = count++; if (at < 0 || k < at || (k > at && !sticky)) return false; hit = true; return true; }
    struct Pause { Pause() { if (!paused++ && on && live > result) result = live.load(); } ~Pause() { --paused; } };
#ifdef MEM_ACCOUNT
    static inline void* got(void* p) { if (!p) return p; long l = live += (long)malloc_usable_size(p); if (on && !paused) { long q = peak; while (l > q && !peak.compare_exchange_weak(q, l)) { }
        if (malloc_usable_size(p) > 100000 && delays++ < 3000) usleep(60); } return p; }    // let the others take theirs meanwhile
    static inline void lost(void* p) { if (p) live -= (long)malloc_usable_size(p); }
#else
    static inline void* got(void* p) { return p; }
    static inline void lost(void*) { }
#endif
    static inline void start(long k, bool s) { at = k; sticky = s; count = 0; hit = false; delays = 0; peak = result = live.load(); on = true; }
    static inline void stop() { on = false; }
}
extern "C" { void* __real_malloc(size_t); void* __wrap_malloc(size_t n) { return mem::refuse(n) ? nullptr : mem::got(__real_malloc(n)); }
void* __real_calloc(size_t, size_t); void* __wrap_calloc(size_t a, size_t b) { return mem::refuse(a * b) ? nullptr : mem::got(__real_calloc(a, b)); }
void* __real_realloc(void*, size_t); void* __wrap_realloc(void* p, size_t n) { if (mem::refuse(n)) return nullptr; mem::lost(p); return mem::got(__real_realloc(p, n)); }
void __real_free(void*); void __wrap_free(void* p) { mem::lost(p); __real_free(p); } }
void* operator new(size_t n) { if (mem::refuse(n)) throw std::bad_alloc(); void* p = __real_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return mem::got(p); }
void* operator new[](size_t n) { return operator new(n); }
// Whoever asks so expects a refusal, and may well do without.
void* operator new(size_t n, const std::nothrow_t&) noexcept { return mem::refuse(n) ? nullptr : mem::got(__real_malloc(n ? n : 1)); }
void* operator new[](size_t n, const std::nothrow_t& t) noexcept { return operator new(n, t); }
void operator delete(void* p) noexcept { free(p); } void operator delete[](void* p) noexcept { free(p); } void operator delete(void* p, size_t) noexcept { free(p); } void operator delete[](void* p, size_t) noexcept { free(p); }
