// Replacement OpenMP runtime (the libgomp entry points gcc emits and the omp_* API).
//
//  -DRT_TSAN   for ThreadSanitizer. libgomp is not instrumented, so its barriers are
//              invisible to TSan. Here all internal synchronisation is invisible as well
//              (atomics in uninstrumented code, raw futex calls), and exactly the
//              happens-before edges that OpenMP promises are declared with
//              __tsan_acquire/__tsan_release: region start and end, barriers, critical,
//              atomic regions, locks, ordered, copyprivate. Claiming a single construct
//              or a loop chunk orders nothing. Seeded delays vary the real schedule.
//  -DRT_SCHED  deterministic scheduling. Linked instead of libtsan with objects compiled
//              with -fsanitize=thread: it defines the __tsan_* callbacks itself. Exactly
//              one team member runs at a time; at every runtime call, atomic operation and
//              (with a per-case probability) plain memory access a seeded strategy picks
//              who continues.
//
// Compiled without instrumentation, and without std:: templates, so that no inline
// function of the instrumented program is shared with it.
#include <atomic>
#include <cerrno>
#include <climits>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <linux/futex.h>
#include <omp.h>
#include <pthread.h>
#include <sched.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

typedef unsigned long long ull;
#if defined(RT_TSAN)
extern "C" { void __tsan_acquire(void*); void __tsan_release(void*); }
#define HB_ACQ(p) __tsan_acquire((void*)(p))
#define HB_REL(p) __tsan_release((void*)(p))
#elif defined(RT_SCHED)
#define HB_ACQ(p) (void)(p)
#define HB_REL(p) (void)(p)
#else
#error select RT_TSAN or RT_SCHED
#endif

namespace {
struct WS {                       // one work-sharing construct of a team
    std::atomic<int> claimed{0}; int inited = 0;
    long start = 0, end = 0, incr = 1, chunk = 1; ull ustart = 0, uend = 0, uincr = 1, uchunk = 1; bool up = true, is_ull = false; int kind = 0;
    ull total = 0, pos = 0; long seq = 0; std::atomic<long> turn{0}; void* copy = nullptr; unsigned nsec = 0, sec = 0; WS* next = nullptr; char sync = 0;
};
struct Team {
    int n = 1; Team* parent = nullptr; int level = 0, active_level = 0; int parent_tid = 0;
    std::atomic<int> arrived{0}; std::atomic<int> phase{0}; char bsync[2]; char ssync, esync;
    std::atomic<int> left{0};
    std::atomic<int> lk{0}; WS head;
    void (*fn)(void*) = nullptr; void* data = nullptr; int nthr_icv = 0; int max_levels = 1; bool preset = false;
};
struct Thr {
    Team* team = nullptr; int tid = 0; WS* ws = nullptr; WS* cur = nullptr; long seq = -1; long strip = 0; uint64_t rng = 88172645463325252ull; int nthr_icv = 0; int max_levels = 1;
    void reset() { ws = nullptr; cur = nullptr; }
};
Team serial_team;
thread_local Thr self;

int default_threads() { static int d = 0; if (!d) { const char* e = getenv("OMP_NUM_THREADS"); d = e ? atoi(e) : 4; if (d < 1) d = 1; } return d; }
Team* team() { return self.team ? self.team : &serial_team; }
int nthr() { return self.nthr_icv ? self.nthr_icv : default_threads(); }

long fut_wait(std::atomic<int>* p, int v) { return syscall(SYS_futex, (int*)p, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, v, nullptr, nullptr, 0); }
void fut_wake(std::atomic<int>* p, int n) { syscall(SYS_futex, (int*)p, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, n, nullptr, nullptr, 0); }
void spin_lock(std::atomic<int>& l) { int k = 0; while (l.exchange(1, std::memory_order_acquire)) if (++k > 50) sched_yield(); }
void spin_unlock(std::atomic<int>& l) { l.store(0, std::memory_order_release); }
uint64_t mix(uint64_t x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }

std::atomic<uint64_t> g_regions{0}, g_barriers{0}, g_switches{0};
uint64_t g_seed = 1, g_hash = 0;
int g_vary = 0;                   // every team may be smaller than asked for

#if defined(RT_TSAN)
// ---------------- real threads with seeded delays ----------------
int g_mode = 0, g_victim = -1;
uint64_t rnd() { self.rng ^= self.rng << 13; self.rng ^= self.rng >> 7; self.rng ^= self.rng << 17; return self.rng; }
void delay(int where) {
    if (team()->n <= 1) return;
    int m = g_mode;
    if (m == 0) return;
    if (g_victim >= 0 && self.tid == g_victim && where < 3) { struct timespec t = {0, 30000 + (long)(rnd() % 120000)}; nanosleep(&t, nullptr); return; }
    uint64_t r = rnd();
    if (m == 1) { if (r % 4 == 0) sched_yield(); }
    else if (m == 2) { if (r % 3 == 0) { struct timespec t = {0, (long)(r >> 20) % 60000}; nanosleep(&t, nullptr); } }
    else { for (volatile int i = 0; i < (int)((r >> 10) % 600); i = i + 1) { } }
}
void point() { delay(3); }
struct Worker { pthread_t th; std::atomic<int> go{0}; Team* t = nullptr; int tid = 0; bool stop = false, busy = false; Worker* next = nullptr; };
struct Pool { Worker* list = nullptr; ~Pool() { for (Worker* w = list; w;) { w->stop = true; w->go.store(1); fut_wake(&w->go, 1); pthread_join(w->th, nullptr); Worker* n = w->next; free(w); w = n; } list = nullptr; } };
thread_local Pool pool;
void team_run(Team* t, int tid) {
    Thr saved = self; self.team = t; self.tid = tid; self.reset(); self.nthr_icv = t->nthr_icv; self.max_levels = t->max_levels; self.rng = mix(g_seed ^ ((uint64_t)tid << 32) ^ g_regions.load()) | 1;
    HB_ACQ(&t->ssync);
    delay(0);
    t->fn(t->data);
    delay(1);
    HB_REL(&t->esync);
    uint64_t rg = self.rng; self = saved; self.rng = rg;
}
void* worker_main(void* p) {
    Worker* w = (Worker*)p;
    for (;;) {
        while (w->go.load(std::memory_order_acquire) == 0) fut_wait(&w->go, 0);
        w->go.store(0);
        if (w->stop) return nullptr;
        Team* t = w->t;
        team_run(t, w->tid);
        if (t->left.fetch_sub(1, std::memory_order_acq_rel) == 1) fut_wake(&t->left, 1);
    }
}
void run_team(Team* t) {
    t->left = t->n - 1;
    HB_REL(&t->ssync);
    Worker* w = pool.list; Worker** tail = &pool.list;
    for (int i = 1; i < t->n; ++i) {
        while (w && w->busy) { tail = &w->next; w = w->next; }       // works for an enclosing region of this thread
        if (!w) {
            w = (Worker*)calloc(1, sizeof(Worker)); new (&w->go) std::atomic<int>(0);
            if (pthread_create(&w->th, nullptr, worker_main, w)) { fprintf(stderr, "rt: cannot create thread\n"); _exit(9); }
            *tail = w;
        }
        w->busy = true; w->t = t; w->tid = i; w->go.store(1, std::memory_order_release); fut_wake(&w->go, 1);
        tail = &w->next; w = w->next;
    }
    team_run(t, 0);
    for (int v; (v = t->left.load(std::memory_order_acquire)) > 0;) fut_wait(&t->left, v);
    for (Worker* q = pool.list; q; q = q->next) if (q->t == t) { q->busy = false; q->t = nullptr; }
    HB_ACQ(&t->esync);
}
void team_barrier() {
    Team* t = team(); ++g_barriers; if (t->n == 1) return;
    delay(2);
    int ph = t->phase.load(std::memory_order_relaxed);
    HB_REL(&t->bsync[ph & 1]);
    if (t->arrived.fetch_add(1, std::memory_order_acq_rel) == t->n - 1) { t->arrived.store(0); t->phase.store(ph + 1, std::memory_order_release); fut_wake(&t->phase, INT_MAX); }
    else while (t->phase.load(std::memory_order_acquire) == ph) fut_wait(&t->phase, ph);
    HB_ACQ(&t->bsync[ph & 1]);
    delay(3);
}
void ws_lock(Team* t) { spin_lock(t->lk); }
void ws_unlock(Team* t) { spin_unlock(t->lk); }
void lk_acquire(std::atomic<int>* l) { delay(3); int k = 0; while (l->exchange(1, std::memory_order_acquire)) { if (++k > 20) sched_yield(); } HB_ACQ(l); }
bool lk_try(std::atomic<int>* l) { if (l->exchange(1, std::memory_order_acquire)) return false; HB_ACQ(l); return true; }
void lk_release(std::atomic<int>* l) { HB_REL(l); l->store(0, std::memory_order_release); }
void wait_turn(WS* w, long seq) { while (w->turn.load(std::memory_order_acquire) != seq) sched_yield(); }
void set_turn(WS* w, long v) { w->turn.store(v, std::memory_order_release); }

#else
// ---------------- deterministic scheduler ----------------
struct ST { std::atomic<int> go{0}; int state = 0 /*0 free 1 ready 2 blocked 3 done*/; void* on = nullptr; Team* t = nullptr; int tid = 0; pthread_t th; int prio = 0; bool created = false; };
const int MAXT = 256;
ST g_thr[MAXT]; int g_cur = 0, g_used = 1, g_active = 1; thread_local int my = 0;
uint64_t g_rng = 1; long g_count = 1L << 60; int g_strat = 0; long g_period = 0; int g_victim = -1; uint64_t g_steps = 0; uint64_t g_since = 0;
bool g_off = true;
uint64_t rnd() { g_rng ^= g_rng << 13; g_rng ^= g_rng >> 7; g_rng ^= g_rng << 17; return g_rng; }
void reload() { g_count = g_period ? 1 + (long)(rnd() % (2 * (uint64_t)g_period)) : (1L << 21); }
long g_stay = 0;                  // points passed in this region: a waiting loop must not starve the others for ever
int choose(bool can_stay) {
    int c[MAXT], n = 0; for (int i = 0; i < g_used; ++i) if (g_thr[i].state == 1 && (can_stay || i != my)) c[n++] = i;
    if (!n) return -1;
    int pick;
    switch (g_strat) {
        case 1: { // starve one team member as long as another can run
            int m = 0, d[MAXT]; for (int i = 0; i < n; ++i) if (g_thr[c[i]].tid != g_victim) d[m++] = c[i];
            pick = m ? d[rnd() % m] : c[rnd() % n]; break; }
        case 2: { // priorities with random change points
            if (rnd() % 24 == 0) g_thr[c[rnd() % n]].prio = (int)(rnd() % 1000);
            pick = c[0]; for (int i = 1; i < n; ++i) if (g_thr[c[i]].prio > g_thr[pick].prio) pick = c[i]; break; }
        case 3: { // favour one team member
            pick = -1; for (int i = 0; i < n; ++i) if (g_thr[c[i]].tid == g_victim) pick = c[i];
            if (pick < 0 || rnd() % 16 == 0) pick = c[rnd() % n]; break; }
        case 4: { // run to completion, last first
            pick = c[n - 1]; break; }
        case 5: { // run to completion, first first
            pick = c[0]; break; }
        default: pick = c[rnd() % n];
    }
    return pick;
}
void go_to(int nx) {
    int me = my;
    g_hash = mix(g_hash ^ ((uint64_t)nx + 0x100) ^ (g_since << 20)); g_since = 0; ++g_switches;
    g_cur = nx;
    g_thr[nx].go.store(1, std::memory_order_release); fut_wake(&g_thr[nx].go, 1);
    while (g_thr[me].go.load(std::memory_order_acquire) == 0) fut_wait(&g_thr[me].go, 0);
    g_thr[me].go.store(0);
}
void deadlock() { fprintf(stderr, "rt: DEADLOCK: no team member can run\n"); abort(); }
void sched_point() {
    if (g_active <= 1) return;
    int nx = choose(true); if (nx < 0) return;
    if (++g_stay > 30000) { g_strat = 6; g_stay = 0; }             // waiting in a loop: from here on all run
    if (nx != my) go_to(nx);
}
void point() { if (g_active > 1) { ++g_since; sched_point(); } }
void block_on(void* a) { g_thr[my].state = 2; g_thr[my].on = a; int nx = choose(false); if (nx < 0) deadlock(); go_to(nx); }
void wake_on(void* a) { for (int i = 0; i < g_used; ++i) if (g_thr[i].state == 2 && g_thr[i].on == a) { g_thr[i].state = 1; g_thr[i].on = nullptr; } }
void team_run(Team* t, int tid) {
    Thr saved = self; self.team = t; self.tid = tid; self.reset(); self.nthr_icv = t->nthr_icv; self.max_levels = t->max_levels; int stid = g_thr[my].tid; g_thr[my].tid = tid;
    point();
    t->fn(t->data);
    self = saved; g_thr[my].tid = stid;
}
void* worker_main(void* p) {
    my = (int)(intptr_t)p; ST& s = g_thr[my];
    for (;;) {
        while (s.go.load(std::memory_order_acquire) == 0) fut_wait(&s.go, 0);
        s.go.store(0);
        Team* t = s.t; team_run(t, s.tid);
        t->left.fetch_sub(1); s.state = 3; --g_active;
        wake_on(&t->left);
        int nx = choose(false); if (nx < 0) deadlock();
        s.state = 0; g_hash = mix(g_hash ^ (uint64_t)nx); g_cur = nx; ++g_switches;
        g_thr[nx].go.store(1, std::memory_order_release); fut_wake(&g_thr[nx].go, 1);
    }
}
void run_team(Team* t) {
    t->left = t->n - 1; if (g_thr[my].state == 0) g_thr[my].state = 1;
    for (int i = 1; i < t->n; ++i) {
        int k = 1; while (k < g_used && g_thr[k].state != 0) ++k;
        if (k == g_used) { if (g_used == MAXT) { fprintf(stderr, "rt: too many threads\n"); _exit(9); } ++g_used; }
        ST& s = g_thr[k]; s.t = t; s.tid = i; s.state = 1; s.prio = (int)(rnd() % 1000); ++g_active;
        if (!s.created) { s.created = true; if (pthread_create(&s.th, nullptr, worker_main, (void*)(intptr_t)k)) { fprintf(stderr, "rt: cannot create thread\n"); _exit(9); } }
    }
    g_thr[my].prio = (int)(rnd() % 1000);
    g_victim = (int)(rnd() % t->n); reload(); g_off = false; g_stay = 0;
    team_run(t, 0);
    while (t->left.load() > 0) block_on(&t->left);
    if (g_active <= 1) g_off = true;
}
void team_barrier() {
    Team* t = team(); ++g_barriers; if (t->n == 1) return;
    point();
    if (t->arrived.fetch_add(1) == t->n - 1) { t->arrived.store(0); ++t->phase; wake_on(&t->phase); }
    else { int ph = t->phase; while (t->phase == ph) block_on(&t->phase); }
    point();
}
void ws_lock(Team*) { }
void ws_unlock(Team*) { }
void lk_acquire(std::atomic<int>* l) { point(); while (l->load()) { if (g_active <= 1) deadlock(); block_on(l); } l->store(1); }
bool lk_try(std::atomic<int>* l) { point(); if (l->load()) return false; l->store(1); return true; }
void lk_release(std::atomic<int>* l) { l->store(0); wake_on(l); point(); }
void wait_turn(WS* w, long seq) { while (w->turn.load() != seq) block_on(&w->turn); }
void set_turn(WS* w, long v) { w->turn.store(v); wake_on(&w->turn); point(); }
void delay(int) { point(); }
#endif

// Next work-sharing construct of this thread
WS* next_ws() {
    Team* t = team();
    if (t == &serial_team) { WS* w = (WS*)calloc(1, sizeof(WS)); new (w) WS; if (self.cur) free(self.cur); self.cur = w; return w; }
    ws_lock(t);
    WS* c = self.ws ? self.ws : &t->head;
    if (!c->next) { WS* w = (WS*)calloc(1, sizeof(WS)); new (w) WS; c->next = w; }
    c = c->next; ws_unlock(t);
    self.ws = c; self.cur = c; return c;
}
void free_ws(Team* t) { for (WS* w = t->head.next; w;) { WS* n = w->next; free(w); w = n; } t->head.next = nullptr; }

enum { K_STATIC = 1, K_DYNAMIC = 2, K_GUIDED = 3, K_ORDERED = 16 };
ull trip(WS* w) {
    if (w->is_ull) { if (w->up) return w->uend > w->ustart ? (w->uend - w->ustart + w->uincr - 1) / w->uincr : 0; ull dec = 0 - w->uincr; return w->ustart > w->uend ? (w->ustart - w->uend + dec - 1) / dec : 0; }
    if (w->incr > 0) return w->end > w->start ? ((ull)w->end - (ull)w->start + (ull)w->incr - 1) / (ull)w->incr : 0;
    ull dec = 0 - (ull)w->incr; return w->start > w->end ? ((ull)w->start - (ull)w->end + dec - 1) / dec : 0;
}
void ws_params(WS* w, int kind, long s, long e, long i, long c) {
    ws_lock(team());
    if (!w->inited) { w->kind = kind; w->start = s; w->end = e; w->incr = i; w->chunk = c; w->uchunk = c > 0 ? (ull)c : 0; w->total = trip(w); w->inited = 1; }
    ws_unlock(team());
}
void ws_params_ull(WS* w, int kind, bool up, ull s, ull e, ull i, ull c) {
    ws_lock(team());
    if (!w->inited) { w->kind = kind; w->is_ull = true; w->up = up; w->ustart = s; w->uend = e; w->uincr = i; w->uchunk = c; w->total = trip(w); w->inited = 1; }
    ws_unlock(team());
}
// Claims the iterations [a,b) (iteration numbers); false when none remain.
bool claim(WS* w, ull& a, ull& b) {
    delay(3);
    Team* t = team(); int n = t->n;
    if ((w->kind & 15) == K_STATIC) {
        ull tid = (ull)self.tid;
        if (w->uchunk == 0) {
            if (self.strip++) return false;
            ull q = w->total / n, r = w->total % n; a = tid * q + (tid < r ? tid : r); b = a + q + (tid < r ? 1 : 0); self.seq = (long)tid; return a < b;
        }
        ull k = (ull)self.strip++ * n + tid; a = k * w->uchunk; if (a >= w->total) return false; b = a + w->uchunk; if (b > w->total) b = w->total; self.seq = (long)k; return true;
    }
    ws_lock(t);
    bool ok = w->pos < w->total;
    if (ok) {
        ull c = w->uchunk ? w->uchunk : 1;
        if ((w->kind & 15) == K_GUIDED) { ull g = (w->total - w->pos + n - 1) / n; if (g > c) c = g; }
        a = w->pos; b = a + c; if (b > w->total || b < a) b = w->total; w->pos = b; self.seq = w->seq++;
    }
    ws_unlock(t);
    return ok;
}
bool take(WS* w, long* is, long* ie) { ull a, b; if (!claim(w, a, b)) return false; *is = w->start + (long)a * w->incr; *ie = w->start + (long)b * w->incr; return true; }
bool take_ull(WS* w, ull* is, ull* ie) { ull a, b; if (!claim(w, a, b)) return false; *is = w->ustart + a * w->uincr; *ie = w->ustart + b * w->uincr; return true; }
void finish_ordered(WS* w) { if ((w->kind & K_ORDERED) && self.seq >= 0) { wait_turn(w, self.seq); HB_ACQ(&w->turn); HB_REL(&w->turn); set_turn(w, self.seq + 1); self.seq = -1; } }

void parallel(void (*fn)(void*), void* data, unsigned num, WS* preset) {
    Team* p = team(); Team t; ++g_regions;
    int n = num ? (int)num : nthr();
    if (p->active_level >= self.max_levels) n = 1;
    if (g_vary && n > 1) n = 1 + (int)(rnd() % (uint64_t)n);      // as under a thread limit that other teams use up
    if (n < 1) n = 1;
    t.n = n; t.parent = self.team; t.level = p->level + 1; t.active_level = p->active_level + (n > 1); t.parent_tid = self.tid; t.fn = fn; t.data = data; t.nthr_icv = self.nthr_icv; t.max_levels = self.max_levels;
    if (preset) { WS* w = (WS*)calloc(1, sizeof(WS)); new (w) WS; w->kind = preset->kind; w->start = preset->start; w->end = preset->end; w->incr = preset->incr; w->chunk = preset->chunk; w->uchunk = preset->uchunk; w->nsec = preset->nsec; w->inited = 1; w->total = trip(w); t.head.next = w; t.preset = true; }
    if (n == 1) { Thr saved = self; self.team = &t; self.tid = 0; self.reset(); fn(data); self = saved; }
    else run_team(&t);
    free_ws(&t);
}
std::atomic<int> g_atomic{0}, g_critical{0};
} // namespace

// Loops started by GOMP_parallel_loop_*: the threads call *_next directly.
static WS* cur_ws() { if (!self.cur && team()->preset && team()->head.next) { self.ws = self.cur = team()->head.next; self.strip = 0; self.seq = -1; } return self.cur; }
static bool start_common(int kind, long s, long e, long i, long c, long* is, long* ie) { WS* w = next_ws(); self.strip = 0; self.seq = -1; ws_params(w, kind, s, e, i, c); return take(w, is, ie); }
static bool next_common(long* is, long* ie) { WS* w = cur_ws(); if (!w) return false; finish_ordered(w); return take(w, is, ie); }
static bool start_ull(int kind, bool up, ull s, ull e, ull i, ull c, ull* is, ull* ie) { WS* w = next_ws(); self.strip = 0; self.seq = -1; ws_params_ull(w, kind, up, s, e, i, c); return take_ull(w, is, ie); }
static bool next_ull(ull* is, ull* ie) { WS* w = cur_ws(); if (!w) return false; finish_ordered(w); return take_ull(w, is, ie); }
static long rt_chunk() { return 1 + (long)(mix(g_seed) % 5); }

extern "C" {
void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { parallel(fn, data, n, nullptr); }
#define PLOOP(name, k) void GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) { WS p; p.kind = k; p.start = s; p.end = e; p.incr = i; p.chunk = c; p.uchunk = c > 0 ? c : 0; parallel(fn, d, n, &p); }
#define PLOOPR(name, k) void GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned) { WS p; p.kind = k; p.start = s; p.end = e; p.incr = i; p.chunk = rt_chunk(); p.uchunk = p.chunk; parallel(fn, d, n, &p); }
PLOOP(static, K_STATIC) PLOOP(dynamic, K_DYNAMIC) PLOOP(guided, K_GUIDED) PLOOP(nonmonotonic_dynamic, K_DYNAMIC) PLOOP(nonmonotonic_guided, K_GUIDED)
PLOOPR(runtime, K_DYNAMIC) PLOOPR(nonmonotonic_runtime, K_DYNAMIC) PLOOPR(maybe_nonmonotonic_runtime, K_DYNAMIC)
#define LOOP(name, k) bool GOMP_loop_##name##_start(long s, long e, long i, long c, long* is, long* ie) { return start_common(k, s, e, i, c, is, ie); } bool GOMP_loop_##name##_next(long* is, long* ie) { return next_common(is, ie); }
#define LOOPR(name, k) bool GOMP_loop_##name##_start(long s, long e, long i, long* is, long* ie) { return start_common(k, s, e, i, rt_chunk(), is, ie); } bool GOMP_loop_##name##_next(long* is, long* ie) { return next_common(is, ie); }
LOOP(static, K_STATIC) LOOP(dynamic, K_DYNAMIC) LOOP(guided, K_GUIDED) LOOP(nonmonotonic_dynamic, K_DYNAMIC) LOOP(nonmonotonic_guided, K_GUIDED)
LOOPR(runtime, K_DYNAMIC) LOOPR(nonmonotonic_runtime, K_DYNAMIC) LOOPR(maybe_nonmonotonic_runtime, K_DYNAMIC)
LOOP(ordered_static, K_STATIC | K_ORDERED) LOOP(ordered_dynamic, K_DYNAMIC | K_ORDERED) LOOP(ordered_guided, K_GUIDED | K_ORDERED) LOOPR(ordered_runtime, K_DYNAMIC | K_ORDERED)
#define ULOOP(name, k) bool GOMP_loop_ull_##name##_start(bool up, ull s, ull e, ull i, ull c, ull* is, ull* ie) { return start_ull(k, up, s, e, i, c, is, ie); } bool GOMP_loop_ull_##name##_next(ull* is, ull* ie) { return next_ull(is, ie); }
#define ULOOPR(name, k) bool GOMP_loop_ull_##name##_start(bool up, ull s, ull e, ull i, ull* is, ull* ie) { return start_ull(k, up, s, e, i, (ull)rt_chunk(), is, ie); } bool GOMP_loop_ull_##name##_next(ull* is, ull* ie) { return next_ull(is, ie); }
ULOOP(static, K_STATIC) ULOOP(dynamic, K_DYNAMIC) ULOOP(guided, K_GUIDED) ULOOP(nonmonotonic_dynamic, K_DYNAMIC) ULOOP(nonmonotonic_guided, K_GUIDED)
ULOOPR(runtime, K_DYNAMIC) ULOOPR(nonmonotonic_runtime, K_DYNAMIC) ULOOPR(maybe_nonmonotonic_runtime, K_DYNAMIC)
ULOOP(ordered_static, K_STATIC | K_ORDERED) ULOOP(ordered_dynamic, K_DYNAMIC | K_ORDERED) ULOOP(ordered_guided, K_GUIDED | K_ORDERED) ULOOPR(ordered_runtime, K_DYNAMIC | K_ORDERED)
static int kind_of(long sched) { sched &= 0x7fffffff; switch (sched & 7) { case 1: return K_STATIC; case 3: return K_GUIDED; case 4: return K_STATIC; default: return K_DYNAMIC; } }
bool GOMP_loop_start(long s, long e, long i, long sched, long c, long* is, long* ie, uintptr_t*, void** mem) { if (mem) { WS* w = next_ws(); ws_lock(team()); if (!w->copy) w->copy = calloc(1, (size_t)*mem ? (size_t)*mem : 1); ws_unlock(team()); *mem = w->copy; self.strip = 0; self.seq = -1; ws_params(w, kind_of(sched), s, e, i, c); return is ? take(w, is, ie) : true; } if (!is) { next_ws(); return true; } return start_common(kind_of(sched), s, e, i, c, is, ie); }
void GOMP_loop_end(void) { if (self.cur) finish_ordered(self.cur); team_barrier(); }
void GOMP_loop_end_nowait(void) { if (self.cur) finish_ordered(self.cur); }
bool GOMP_loop_end_cancel(void) { GOMP_loop_end(); return false; }
void GOMP_barrier(void) { team_barrier(); }
bool GOMP_barrier_cancel(void) { team_barrier(); return false; }
bool GOMP_single_start(void) { WS* w = next_ws(); delay(3); bool r = w->claimed.exchange(1) == 0; delay(3); return r; }
void* GOMP_single_copy_start(void) { WS* w = next_ws(); if (w->claimed.exchange(1) == 0) return nullptr; team_barrier(); return w->copy; }
void GOMP_single_copy_end(void* d) { self.cur->copy = d; team_barrier(); }
static unsigned sec_next(WS* w) { if (!w) return 0; delay(3); ws_lock(team()); unsigned r = w->sec < w->nsec ? ++w->sec : 0; ws_unlock(team()); return r; }
unsigned GOMP_sections_start(unsigned n) { WS* w = next_ws(); ws_lock(team()); w->nsec = n; ws_unlock(team()); return sec_next(w); }
unsigned GOMP_sections_next(void) { return sec_next(cur_ws()); }
void GOMP_sections_end(void) { team_barrier(); }
bool GOMP_sections_end_cancel(void) { team_barrier(); return false; }
void GOMP_sections_end_nowait(void) { }
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned n, unsigned cnt, unsigned) { WS p; p.nsec = cnt; p.kind = K_DYNAMIC; parallel(fn, d, n, &p); }
void GOMP_critical_start(void) { lk_acquire(&g_critical); }
void GOMP_critical_end(void) { lk_release(&g_critical); }
void GOMP_critical_name_start(void** p) { lk_acquire((std::atomic<int>*)p); }
void GOMP_critical_name_end(void** p) { lk_release((std::atomic<int>*)p); }
void GOMP_atomic_start(void) { lk_acquire(&g_atomic); }
void GOMP_atomic_end(void) { lk_release(&g_atomic); }
void GOMP_ordered_start(void) { WS* w = cur_ws(); if (w && (w->kind & K_ORDERED) && self.seq >= 0) { wait_turn(w, self.seq); HB_ACQ(&w->turn); } }
void GOMP_ordered_end(void) { WS* w = cur_ws(); if (w) HB_REL(&w->turn); }
void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, bool, unsigned, void**, int) {
    if (!cpy) { char* b = (char*)malloc(size + align + 16); char* a = (char*)(((uintptr_t)b + align) & ~(uintptr_t)(align > 0 ? align - 1 : 0)); memcpy(a, data, size); fn(a); free(b); }
    else { char* b = (char*)malloc(size + align + 16); char* a = (char*)(((uintptr_t)b + align) & ~(uintptr_t)(align > 0 ? align - 1 : 0)); cpy(a, data); fn(a); free(b); }
}
static void one_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, const void* from, const void* to) {
    char* b = (char*)malloc(size + align + 16); char* a = (char*)(((uintptr_t)b + align) & ~(uintptr_t)(align > 0 ? align - 1 : 0));
    if (cpy) cpy(a, data); else memcpy(a, data, size);
    memcpy(a, from, 8); memcpy(a + 8, to, 8); point(); fn(a); free(b);
}
// A taskloop is cut into three tasks run in place (flags: 1 << 8 is an upward unsigned loop).
void GOMP_taskloop(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, unsigned, unsigned long, int, long s, long e, long st) {
    long n = st > 0 ? (s < e ? (e - s + st - 1) / st : 0) : (s > e ? (s - e - st - 1) / -st : 0);
    for (int k = 0; k < 3; ++k) { long a = n * k / 3, b = n * (k + 1) / 3; if (a == b) continue; long x = s + a * st, y = b == n ? e : s + b * st; one_task(fn, data, cpy, size, align, &x, &y); }
}
void GOMP_taskloop_ull(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, unsigned flags, unsigned long, int, ull s, ull e, ull st) {
    bool up = flags & (1u << 8); ull n = up ? (s < e ? (e - s + st - 1) / st : 0) : (s > e ? (s - e - st - 1) / -st : 0);
    for (ull k = 0; k < 3; ++k) { ull a = n / 3 * k + n % 3 * k / 3, b = n / 3 * (k + 1) + n % 3 * (k + 1) / 3; if (a == b) continue; ull x = s + a * st, y = b == n ? e : s + b * st; one_task(fn, data, cpy, size, align, &x, &y); }
}
void GOMP_taskwait_depend(void**) { } void GOMP_scope_start(uintptr_t*) { } int omp_get_supported_active_levels(void) { return INT_MAX; } int omp_in_explicit_task(void) { return 0; }
bool GOMP_loop_ordered_start(long s, long e, long i, long sched, long c, long* is, long* ie, uintptr_t* r, void** mem) { if (!mem && is) return start_common(kind_of(sched) | K_ORDERED, s, e, i, c, is, ie); return GOMP_loop_start(s, e, i, sched, c, is, ie, r, mem); }
bool GOMP_loop_ull_start(bool up, ull s, ull e, ull i, long sched, ull c, ull* is, ull* ie, uintptr_t*, void** mem) { (void)mem; if (!is) { next_ws(); return true; } return start_ull(kind_of(sched), up, s, e, i, c, is, ie); }
void GOMP_taskwait(void) { } void GOMP_taskyield(void) { point(); } void GOMP_taskgroup_start(void) { } void GOMP_taskgroup_end(void) { }
bool GOMP_cancel(int, bool) { return false; } bool GOMP_cancellation_point(int) { return false; }

int omp_get_thread_num(void) { return self.team ? self.tid : 0; }
int omp_get_num_threads(void) { return team()->n; }
int omp_get_max_threads(void) { return nthr(); }
void omp_set_num_threads(int n) { self.nthr_icv = n > 0 ? n : 1; }
int omp_get_num_procs(void) { return 8; }
int omp_in_parallel(void) { return team()->active_level > 0; }
static __thread int g_dynamic; void omp_set_dynamic(int d) { g_dynamic = d != 0; } int omp_get_dynamic(void) { return g_dynamic; }
void omp_set_nested(int v) { self.max_levels = v ? INT_MAX : 1; } int omp_get_nested(void) { return self.max_levels > 1; }
void omp_set_max_active_levels(int v) { self.max_levels = v; } int omp_get_max_active_levels(void) { return self.max_levels; }
int omp_get_level(void) { return team()->level; } int omp_get_active_level(void) { return team()->active_level; }
int omp_get_ancestor_thread_num(int l) { Team* t = team(); if (l < 0 || l > t->level) return -1; int tid = omp_get_thread_num(); while (t->level > l) { tid = t->parent_tid; t = t->parent ? t->parent : &serial_team; } return tid; }
int omp_get_team_size(int l) { Team* t = team(); if (l < 0 || l > t->level) return -1; while (t->level > l) t = t->parent ? t->parent : &serial_team; return t->n; }
int omp_get_thread_limit(void) { return g_vary ? 24 : INT_MAX; } int omp_get_cancellation(void) { return 0; }
void omp_set_schedule(omp_sched_t, int) { } void omp_get_schedule(omp_sched_t* k, int* c) { *k = omp_sched_dynamic; *c = 1; }
double omp_get_wtime(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; } double omp_get_wtick(void) { return 1e-9; }
void omp_init_lock(omp_lock_t* l) { ((std::atomic<int>*)l)->store(0); } void omp_destroy_lock(omp_lock_t*) { }
void omp_set_lock(omp_lock_t* l) { lk_acquire((std::atomic<int>*)l); } void omp_unset_lock(omp_lock_t* l) { lk_release((std::atomic<int>*)l); } int omp_test_lock(omp_lock_t* l) { return lk_try((std::atomic<int>*)l); }
struct NL { std::atomic<int> l; int c; Thr* o; };
static NL** nlp(omp_nest_lock_t* l) { return (NL**)l; }
void omp_init_nest_lock(omp_nest_lock_t* l) { NL* n = (NL*)calloc(1, sizeof(NL)); *nlp(l) = n; } void omp_destroy_nest_lock(omp_nest_lock_t* l) { free(*nlp(l)); }
void omp_set_nest_lock(omp_nest_lock_t* l) { NL* n = *nlp(l); if (__atomic_load_n(&n->o, __ATOMIC_ACQUIRE) == &self) { ++n->c; return; } lk_acquire(&n->l); __atomic_store_n(&n->o, &self, __ATOMIC_RELEASE); n->c = 1; }
void omp_unset_nest_lock(omp_nest_lock_t* l) { NL* n = *nlp(l); if (--n->c == 0) { __atomic_store_n(&n->o, (Thr*)nullptr, __ATOMIC_RELEASE); lk_release(&n->l); } }
int omp_test_nest_lock(omp_nest_lock_t* l) { NL* n = *nlp(l); if (n->o == &self) return ++n->c; if (!lk_try(&n->l)) return 0; n->o = &self; return n->c = 1; }
int omp_is_initial_device(void) { return 1; } int omp_get_num_teams(void) { return 1; } int omp_get_team_num(void) { return 0; } int omp_get_num_devices(void) { return 0; } int omp_in_final(void) { return 0; }

uint64_t rt_schedule_hash() { return g_hash; }
uint64_t rt_switches() { return g_switches; }
void rt_vary(int v) { g_vary = v; }
uint64_t rt_regions() { return g_regions; }
uint64_t rt_barriers() { return g_barriers; }
void rt_seed(uint64_t s) {
    g_seed = s ? s : 1; uint64_t q = mix(s);
#if defined(RT_TSAN)
    g_mode = (int)(q % 4); g_victim = (q >> 8) % 2 ? (int)((q >> 16) % 8) : -1; self.rng = mix(q) | 1; g_hash = mix(q);
#else
    g_rng = mix(q) | 1; g_hash = 0x1234; g_since = 0; g_strat = (int)((q >> 8) % 8);  // 6, 7: uniform
    static const long per[] = {0, 0, 3, 12, 40, 150, 600, 3000}; g_period = per[(q >> 20) % 8]; reload();
#endif
}
}

#if defined(RT_SCHED)
// Mutexes of the program must not block the only running thread.
#include <dlfcn.h>
template<class F> static F next_fn(F, const char* n) { return (F)dlsym(RTLD_NEXT, n); }
extern "C" int pthread_mutex_lock(pthread_mutex_t* m) {
    static auto real = next_fn(&pthread_mutex_lock, "pthread_mutex_lock");
    if (g_active <= 1 || g_off) return real(m);
    static auto tr = next_fn(&pthread_mutex_trylock, "pthread_mutex_trylock");
    for (;;) { int r = tr(m); if (r != EBUSY) return r; point(); }
}
// ---------------- callbacks of -fsanitize=thread ----------------
static inline void acc() { if (__builtin_expect(g_off, 1)) return; if (__builtin_expect(--g_count > 0, 1)) return; reload(); g_since += 2; sched_point(); }
extern "C" {
void __tsan_init() { } void __tsan_func_entry(void*) { } void __tsan_func_exit() { }
#define RW(n) void __tsan_read##n(void*) { acc(); } void __tsan_write##n(void*) { acc(); } void __tsan_unaligned_read##n(void*) { acc(); } void __tsan_unaligned_write##n(void*) { acc(); } void __tsan_volatile_read##n(void*) { acc(); } void __tsan_volatile_write##n(void*) { acc(); } void __tsan_unaligned_volatile_read##n(void*) { acc(); } void __tsan_unaligned_volatile_write##n(void*) { acc(); } void __tsan_read_write##n(void*) { acc(); } void __tsan_unaligned_read_write##n(void*) { acc(); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void*, unsigned long) { acc(); } void __tsan_write_range(void*, unsigned long) { acc(); }
void __tsan_vptr_update(void**, void*) { } void __tsan_vptr_read(void**) { }
void* __tsan_memcpy(void* d, const void* s, size_t n) { acc(); return memcpy(d, s, n); } void* __tsan_memmove(void* d, const void* s, size_t n) { acc(); return memmove(d, s, n); } void* __tsan_memset(void* d, int c, size_t n) { acc(); return memset(d, c, n); }
#define AT(bits, T) \
T __tsan_atomic##bits##_load(const volatile T* p, int) { point(); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
void __tsan_atomic##bits##_store(volatile T* p, T v, int) { point(); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_exchange(volatile T* p, T v, int) { point(); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int) { point(); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int) { point(); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int) { point(); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int) { point(); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int) { point(); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int) { point(); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* c, T v, int, int) { point(); return __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* c, T v, int, int) { point(); return __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T c, T v, int, int) { point(); __atomic_compare_exchange_n(p, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) { point(); } void __tsan_atomic_signal_fence(int) { }
}
#endif
