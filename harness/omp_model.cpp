// A model of the OpenMP runtime (the GOMP_* and omp_* entry points that gcc calls) whose threads are coroutines run one at
// a time under a controlled scheduler, with a happens-before race detector fed by gcc's -fsanitize=thread instrumentation
// (the __tsan_* hooks are implemented here; the sanitizer's own runtime is not linked).
//
// A thread runs without interruption up to its next visible operation: entry of a critical section or mutex, request of the
// next chunk of a dynamic loop, `single`, a synchronising atomic operation, a barrier.  When every thread is stopped at a
// visible operation, the scheduler chooses which of the enabled ones goes first; all choices are enumerated by replay.
// Code between visible operations needs no other interleaving: any access of it that could depend on one is a data race, and
// the detector reports it.  No STL here: templates shared with the instrumented objects would be merged by the linker.
#include <pthread.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <ucontext.h>
#include <malloc.h>
#include <new>

extern "C" {
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
void *__real_memcpy(void *, const void *, size_t); void *__real_memmove(void *, const void *, size_t); void *__real_memset(void *, int, size_t);
int __real_pthread_mutex_lock(pthread_mutex_t *); int __real_pthread_mutex_unlock(pthread_mutex_t *); int __real_pthread_mutex_trylock(pthread_mutex_t *);
}
namespace {
enum { MAXT = 8, STACK = 4 << 20, MAXCH = 4096, MAXL = 256 };
typedef uint32_t u32;
typedef uintptr_t up;
struct Clock { u32 c[MAXT]; };
enum Kind { NONE, LOCK, SYNC, BARRIER, DONE };
struct Thread { ucontext_t ctx; char *stack; Kind wait; void *lock; Clock vc; void (*fn)(void *); void *data; };
struct LockS { void *id; int owner; int depth; Clock vc; } locks[MAXL];
int nlocks;
Thread th[MAXT];
ucontext_t mainctx;
int team = 1, cur = -1; // cur < 0: not inside an explored region
int want_threads = 1;
bool active, busy, dead, overflow;
int prefix[MAXCH], nprefix, taken[MAXCH], options[MAXCH], nch;
int races, regions;
char report[400];
unsigned long accesses;
// work sharing
struct Loop { long next, end, incr, chunk; bool init; int arrived; } loop;
int singles[MAXT], single_done;
Clock loopvc, barriervc;

// shadow memory: open addressing on byte addresses
struct Cell { up addr; u32 gen; u32 wclk; int8_t wtid; u32 r[MAXT]; };
enum { SHBITS = 21 };
Cell *shadow;
u32 gen = 1;
unsigned long used;
Cell *cell(up a) {
    up h = (a * 0x9E3779B97F4A7C15ull) >> (64 - SHBITS);
    for (up k = 0; k < (1u << SHBITS); ++k) {
        Cell &c = shadow[(h + k) & ((1u << SHBITS) - 1)];
        if (c.gen != gen) { if (++used > (3ul << SHBITS) / 4) { overflow = true; --used; return nullptr; } memset(&c, 0, sizeof c); c.addr = a; c.gen = gen; c.wtid = -1; return &c; }
        if (c.addr == a) return &c;
    }
    return nullptr;
}
bool own_stack(up a) { return a >= (up)th[cur].stack && a < (up)th[cur].stack + STACK; }
void access(void *p, size_t n, bool write) {
    if (cur < 0 || busy || !shadow) return;
    up a = (up)p;
    if (own_stack(a)) return;
    busy = true;
    ++accesses;
    Clock &vc = th[cur].vc;
    for (size_t i = 0; i < n; ++i) {
        Cell *c = cell(a + i);
        if (!c) break;
        bool bad = c->wtid >= 0 && c->wtid != cur && c->wclk > vc.c[c->wtid];
        int with = c->wtid; const char *kind = "written";
        if (!bad && write) for (int u = 0; u < team; ++u) if (u != cur && c->r[u] > vc.c[u]) { bad = true; with = u; kind = "read"; break; }
        if (bad) {
            if (!races++) snprintf(report, sizeof report, "data race: thread %d %s %zu byte(s) that thread %d has %s without an order between them", cur, write ? "writes" : "reads", n, with, kind);
            break;
        }
        if (write) { c->wtid = (int8_t)cur; c->wclk = vc.c[cur]; } else c->r[cur] = vc.c[cur];
    }
    busy = false;
}
void forget(void *p, size_t n) { // fresh memory has no history
    if (cur < 0 || busy || !shadow || !p) return;
    busy = true;
    if (n <= (1u << 16) || n < used * 2) { for (size_t i = 0; i < n; ++i) { up a = (up)p + i, h = (a * 0x9E3779B97F4A7C15ull) >> (64 - SHBITS);
        for (up k = 0;; ++k) { Cell &c = shadow[(h + k) & ((1u << SHBITS) - 1)]; if (c.gen != gen) break; if (c.addr == a) { c.wtid = -1; c.wclk = 0; memset(c.r, 0, sizeof c.r); break; } } }
    } else for (up i = 0; i < (1u << SHBITS); ++i) { Cell &c = shadow[i]; if (c.gen == gen && c.addr >= (up)p && c.addr < (up)p + n) { c.wtid = -1; c.wclk = 0; memset(c.r, 0, sizeof c.r); } }
    busy = false;
}
void join(Clock &a, const Clock &b) { for (int i = 0; i < MAXT; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
LockS *lock_of(void *id) {
    for (int i = 0; i < nlocks; ++i) if (locks[i].id == id) return &locks[i];
    if (nlocks == MAXL) { fprintf(stderr, "omp_model: too many locks\n"); abort(); }
    LockS *l = &locks[nlocks++]; memset(l, 0, sizeof *l); l->id = id; l->owner = -1; return l;
}
void stop(Kind k, void *lock) { th[cur].wait = k; th[cur].lock = lock; int me = cur; swapcontext(&th[me].ctx, &mainctx); }
void acquire(void *id) { // a visible operation
    stop(LOCK, id);
    LockS *l = lock_of(id); l->owner = cur; l->depth = 1; join(th[cur].vc, l->vc);
}
void release(void *id) { LockS *l = lock_of(id); l->owner = -1; l->vc = th[cur].vc; ++th[cur].vc.c[cur]; }
void sync_var(void *id, bool acq, bool rel) { LockS *l = lock_of(id); if (acq) join(th[cur].vc, l->vc); if (rel) { join(l->vc, th[cur].vc); ++th[cur].vc.c[cur]; } }
void entry(int t) { th[t].fn(th[t].data); th[t].wait = DONE; swapcontext(&th[t].ctx, &mainctx); }
void run(int t) { th[t].wait = NONE; cur = t; swapcontext(&mainctx, &th[t].ctx); cur = -1; }
void parallel(void (*fn)(void *), void *data, unsigned n) {
    const int t = n ? (int)n : want_threads;
    if (!active || cur >= 0 || t <= 1) { // sequential: nested regions and regions that ask for one thread
        const int saved = team; const bool nested = cur >= 0;
        if (!nested) team = 1;
        if (nested) { fprintf(stderr, "omp_model: nested parallel regions are not modelled\n"); abort(); }
        fn(data); team = saved; return;
    }
    team = t > MAXT ? MAXT : t; ++regions;
    ++gen; used = 0; nlocks = 0; memset(&loop, 0, sizeof loop); memset(singles, 0, sizeof singles); single_done = 0; memset(&loopvc, 0, sizeof loopvc); memset(&barriervc, 0, sizeof barriervc);
    for (int i = 0; i < team; ++i) {
        memset(&th[i].vc, 0, sizeof(Clock)); th[i].vc.c[i] = 1; th[i].fn = fn; th[i].data = data; th[i].wait = NONE;
        if (!th[i].stack) { th[i].stack = (char *)mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (th[i].stack == MAP_FAILED) abort(); }
        getcontext(&th[i].ctx); th[i].ctx.uc_stack.ss_sp = th[i].stack; th[i].ctx.uc_stack.ss_size = STACK; th[i].ctx.uc_link = nullptr;
        makecontext(&th[i].ctx, (void (*)())entry, 1, i);
    }
    for (int i = 0; i < team; ++i) run(i);
    for (;;) {
        int en[MAXT], ne = 0, done = 0, bar = 0;
        for (int i = 0; i < team; ++i) {
            if (th[i].wait == DONE) ++done;
            else if (th[i].wait == BARRIER) ++bar;
            else if (th[i].wait == SYNC || (th[i].wait == LOCK && lock_of(th[i].lock)->owner < 0)) en[ne++] = i;
        }
        if (done == team) break;
        if (!ne) {
            if (bar && bar + done == team) { // everybody is at the barrier
                for (int i = 0; i < team; ++i) join(barriervc, th[i].vc);
                loop.init = false; loop.arrived = 0;
                for (int i = 0; i < team; ++i) if (th[i].wait == BARRIER) { th[i].vc = barriervc; ++th[i].vc.c[i]; }
                for (int i = 0; i < team; ++i) if (th[i].wait == BARRIER) run(i);
                continue;
            }
            dead = true; break;
        }
        int k = 0;
        if (ne > 1) {
            if (nch == MAXCH) { overflow = true; } else {
                k = nch < nprefix ? prefix[nch] : 0;
                if (k >= ne) { fprintf(stderr, "omp_model: the schedule cannot be replayed (the code is not deterministic)\n"); abort(); }
                taken[nch] = k; options[nch] = ne; ++nch;
            }
        }
        run(en[k]);
    }
    team = 1;
}
void barrier() { if (cur >= 0) stop(BARRIER, nullptr); }
bool chunk(long *a, long *b) {
    if (cur >= 0) { stop(SYNC, &loop); }
    if (!loop.init) return false;
    if (loop.incr > 0 ? loop.next >= loop.end : loop.next <= loop.end) return false;
    *a = loop.next; long e = loop.next + loop.incr * loop.chunk;
    if (loop.incr > 0 ? e > loop.end : e < loop.end) e = loop.end;
    *b = e; loop.next = e; return true;
}
void loop_start(long s, long e, long i, long c) { if (!loop.init) { loop.next = s; loop.end = e; loop.incr = i; loop.chunk = c > 0 ? c : 1; loop.init = true; } }
} // namespace

extern "C" {
void omp_model_begin(int t, const int *p, int n) {
    if (!shadow) { shadow = (Cell *)mmap(nullptr, sizeof(Cell) << SHBITS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (shadow == MAP_FAILED) abort(); }
    want_threads = t; nprefix = n > MAXCH ? MAXCH : n; for (int i = 0; i < nprefix; ++i) prefix[i] = p[i];
    nch = 0; races = 0; regions = 0; accesses = 0; dead = false; overflow = false; report[0] = 0; active = true;
}
void omp_model_end() { active = false; }
int omp_model_choices(const int **a, const int **b) { *a = taken; *b = options; return nch; }
int omp_model_races() { return races; }
const char *omp_model_report() { return report; }
int omp_model_deadlock() { return dead; }
unsigned long omp_model_accesses() { return accesses; }
int omp_model_regions() { return regions; }
int omp_model_overflow() { return overflow; }

// ---- OpenMP entry points
void GOMP_parallel(void (*fn)(void *), void *d, unsigned n, unsigned) { parallel(fn, d, n); }
int omp_get_num_threads() { return team; }
int omp_get_thread_num() { return cur < 0 ? 0 : cur; }
int omp_get_max_threads() { return want_threads; }
int omp_get_num_procs() { return want_threads; }
int omp_in_parallel() { return cur >= 0; }
int omp_get_level() { return cur >= 0; }
void omp_set_num_threads(int n) { want_threads = n; }
void omp_set_dynamic(int) {}
void omp_set_nested(int) {}
double omp_get_wtime() { return 0; }
void GOMP_critical_start() { if (cur >= 0) acquire((void *)&GOMP_critical_start); }
void GOMP_critical_end() { if (cur >= 0) release((void *)&GOMP_critical_start); }
void GOMP_critical_name_start(void **p) { if (cur >= 0) acquire(p); }
void GOMP_critical_name_end(void **p) { if (cur >= 0) release(p); }
void GOMP_atomic_start() { if (cur >= 0) acquire((void *)&GOMP_atomic_start); }
void GOMP_atomic_end() { if (cur >= 0) release((void *)&GOMP_atomic_start); }
void GOMP_barrier() { barrier(); }
bool GOMP_single_start() {
    if (cur < 0) return true;
    stop(SYNC, singles);
    int n = ++singles[cur]; // the n-th single construct met by this thread
    if (n > single_done) { single_done = n; return true; }
    return false;
}
#define LOOPS(x) \
    bool GOMP_loop_##x##_start(long s, long e, long i, long c, long *a, long *b) { loop_start(s, e, i, c); return chunk(a, b); } \
    bool GOMP_loop_##x##_next(long *a, long *b) { return chunk(a, b); } \
    void GOMP_parallel_loop_##x(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned) { fn_loop = {s, e, i, c}; pending_loop = true; parallel_loop(fn, d, n); }
static struct { long s, e, i, c; } fn_loop; static bool pending_loop;
static void (*loop_fn)(void *);
static void loop_entry(void *d) { loop_start(fn_loop.s, fn_loop.e, fn_loop.i, fn_loop.c); loop_fn(d); }
static void parallel_loop(void (*fn)(void *), void *d, unsigned n) { loop_fn = fn; if (cur < 0 && (!active || (n ? (int)n : want_threads) <= 1)) loop.init = false; parallel(loop_entry, d, n); loop.init = false; }
LOOPS(dynamic) LOOPS(guided) LOOPS(nonmonotonic_dynamic) LOOPS(nonmonotonic_guided)
bool GOMP_loop_runtime_start(long s, long e, long i, long *a, long *b) { loop_start(s, e, i, 1); return chunk(a, b); }
bool GOMP_loop_runtime_next(long *a, long *b) { return chunk(a, b); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long *a, long *b) { loop_start(s, e, i, 1); return chunk(a, b); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long *a, long *b) { return chunk(a, b); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned) { fn_loop = {s, e, i, 1}; parallel_loop(fn, d, n); }
void GOMP_parallel_loop_runtime(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned) { fn_loop = {s, e, i, 1}; parallel_loop(fn, d, n); }
void GOMP_loop_end() { if (cur >= 0) barrier(); else loop.init = false; }
void GOMP_loop_end_nowait() { if (cur >= 0) { if (++loop.arrived == team) { loop.init = false; loop.arrived = 0; } } else loop.init = false; }
#define LOOPSU(x) \
    bool GOMP_loop_ull_##x##_start(bool up_, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long *a, unsigned long long *b) { (void)up_; loop_start((long)s, (long)e, (long)i, (long)c); return chunk((long *)a, (long *)b); } \
    bool GOMP_loop_ull_##x##_next(unsigned long long *a, unsigned long long *b) { return chunk((long *)a, (long *)b); }
LOOPSU(dynamic) LOOPSU(guided) LOOPSU(nonmonotonic_dynamic) LOOPSU(nonmonotonic_guided)

struct omp_lock_t_ { void *x; };
void omp_init_lock(void *) {}
void omp_destroy_lock(void *) {}
void omp_set_lock(void *l) { if (cur >= 0) acquire(l); }
void omp_unset_lock(void *l) { if (cur >= 0) release(l); }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { if (cur >= 0 && !busy) { acquire(m); return 0; } return __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { if (cur >= 0 && !busy) { release(m); return 0; } return __real_pthread_mutex_unlock(m); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { if (cur >= 0 && !busy) { stop(SYNC, m); LockS *l = lock_of(m); if (l->owner >= 0) return 16; l->owner = cur; join(th[cur].vc, l->vc); return 0; } return __real_pthread_mutex_trylock(m); }

// ---- memory
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); forget(p, n); return p; }
void *__wrap_calloc(size_t a, size_t b) { void *p = __real_calloc(a, b); forget(p, a * b); return p; }
void *__wrap_realloc(void *q, size_t n) { void *p = __real_realloc(q, n); forget(p, n); return p; }
void __wrap_free(void *p) { __real_free(p); }
void *__wrap_memcpy(void *d, const void *s, size_t n) { access((void *)s, n, false); access(d, n, true); return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { access((void *)s, n, false); access(d, n, true); return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { access(d, n, true); return __real_memset(d, c, n); }

// ---- instrumentation
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void *) {}
void __tsan_vptr_update(void **p, void *v) { if (*p != v) access(p, 8, true); }
void __tsan_vptr_read(void **p) { access(p, 8, false); }
#define RW(n) void __tsan_read##n(void *p) { access(p, n, false); } void __tsan_write##n(void *p) { access(p, n, true); } \
    void __tsan_unaligned_read##n(void *p) { access(p, n, false); } void __tsan_unaligned_write##n(void *p) { access(p, n, true); } \
    void __tsan_volatile_read##n(void *p) { access(p, n, false); } void __tsan_volatile_write##n(void *p) { access(p, n, true); } \
    void __tsan_read_write##n(void *p) { access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { access(p, n, false); }
void __tsan_write_range(void *p, size_t n) { access(p, n, true); }
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
// atomics never race with each other; the order they create follows their memory order.  Those that synchronise are visible
// operations.  (Mixed atomic / plain access to one object is not judged.)
#define PRE(p, mo) if (cur >= 0 && !busy && (mo) != 0) { stop(SYNC, (void *)(p)); sync_var((void *)(p), true, true); }
#define ATOMIC(n, T) \
    T __tsan_atomic##n##_load(const volatile T *p, int mo) { if (cur >= 0 && !busy && mo != 0) sync_var((void *)p, true, false); return *p; } \
    void __tsan_atomic##n##_store(volatile T *p, T v, int mo) { PRE(p, mo) *p = v; } \
    T __tsan_atomic##n##_exchange(volatile T *p, T v, int mo) { PRE(p, mo) T o = *p; *p = v; return o; } \
    T __tsan_atomic##n##_fetch_add(volatile T *p, T v, int mo) { PRE(p, mo) T o = *p; *p = (T)(o + v); return o; } \
    T __tsan_atomic##n##_fetch_sub(volatile T *p, T v, int mo) { PRE(p, mo) T o = *p; *p = (T)(o - v); return o; } \
    T __tsan_atomic##n##_fetch_and(volatile T *p, T v, int mo) { PRE(p, mo) T o = *p; *p = (T)(o & v); return o; } \
    T __tsan_atomic##n##_fetch_or(volatile T *p, T v, int mo) { PRE(p, mo) T o = *p; *p = (T)(o | v); return o; } \
    T __tsan_atomic##n##_fetch_xor(volatile T *p, T v, int mo) { PRE(p, mo) T o = *p; *p = (T)(o ^ v); return o; } \
    int __tsan_atomic##n##_compare_exchange_strong(volatile T *p, T *e, T v, int mo, int) { PRE(p, mo) if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
    int __tsan_atomic##n##_compare_exchange_weak(volatile T *p, T *e, T v, int mo, int) { PRE(p, mo) if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
    T __tsan_atomic##n##_compare_exchange_val(volatile T *p, T e, T v, int mo, int) { PRE(p, mo) T o = *p; if (o == e) *p = v; return o; }
ATOMIC(8, unsigned char) ATOMIC(16, unsigned short) ATOMIC(32, unsigned int) ATOMIC(64, unsigned long)
} // extern "C"

void *operator new(size_t n) { void *p = __wrap_malloc(n ? n : 1); if (!p) abort(); return p; }
void *operator new[](size_t n) { return operator new(n); }
void *operator new(size_t n, std::align_val_t a) { void *p = memalign((size_t)a, n ? n : 1); forget(p, n); if (!p) abort(); return p; }
void *operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
void operator delete(void *p) noexcept { __real_free(p); }
void operator delete[](void *p) noexcept { __real_free(p); }
void operator delete(void *p, size_t) noexcept { __real_free(p); }
void operator delete[](void *p, size_t) noexcept { __real_free(p); }
void operator delete(void *p, std::align_val_t) noexcept { __real_free(p); }
void operator delete[](void *p, std::align_val_t) noexcept { __real_free(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { __real_free(p); }
