// OpenMP runtime used when the parallel loops themselves are checked (clang -fopenmp -fsanitize=thread, both the symbolic
// and the native build).  Every "thread" of a parallel region is a coroutine run one after the other; the memory accesses
// which the compiler's race instrumentation reports are recorded per thread between two synchronisation points.  Two
// accesses of different threads to one byte, one of them a write and not both under a lock, are a race: the region's
// result may then depend on the schedule.  Without a race all schedules of the region give the same result.
#include "omp_api.hpp"
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <string>
#include <type_traits>
#include <sys/mman.h>
#include <ucontext.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace {
constexpr int MAXT = 62;
constexpr size_t STACK = 16u << 20;
int cfgThreads = 1;
bool cfgReverse = false;
int raceCount = 0;
long accessCount = 0, regionCount = 0;

struct Access { uint64_t r = 0, w = 0, lr = 0, lw = 0; void* pc = nullptr; };
using Micro = void (*)();
struct Region {
    int n = 1;
    int cur = 0;
    bool done[MAXT] = {};
    ucontext_t ctx[MAXT], main;
    int singles[MAXT] = {};
    int singleTaken = 0;
    int locked = 0, initialising = 0;
    Micro fn;
    std::vector<void*> args;
    struct Dyn { long lo, hi, step, chunk; bool active; } dyn[MAXT];
};
Region* R = nullptr;
char* stacks = nullptr;
std::unordered_map<uintptr_t, Access>* acc = nullptr;
bool tracking = false;   // a thread of a region is executing program code
bool inside = false;     // guards against recursion

bool ownStack(uintptr_t a) {
    return stacks && a >= (uintptr_t) stacks && a < (uintptr_t) stacks + STACK * MAXT;
}
inline __attribute__((always_inline)) void record(void* p, size_t n, bool write, bool sync = false) {
    if (!tracking || inside || R->initialising) return;
    uintptr_t a = (uintptr_t) p;
    if (ownStack(a)) {
        uintptr_t s = (uintptr_t) stacks + STACK * size_t(R->cur);
        if (a >= s && a < s + STACK) return; // private to this thread
    }
    inside = true;
    accessCount++;
    uint64_t bit = 1ull << R->cur;
    bool lk = R->locked > 0 || sync;
    for (size_t i = 0; i < n; i++) {
        Access& x = (*acc)[a + i];
        if (write || !x.pc) x.pc = __builtin_return_address(0);
        if (lk) (write ? x.lw : x.lr) |= bit;
        else (write ? x.w : x.r) |= bit;
    }
    inside = false;
}
void endEpoch() {
    inside = true;
    for (auto& [a, x] : *acc) {
        uint64_t all = x.r | x.w | x.lr | x.lw, un = x.r | x.w;
        bool bad = false;
        for (int t = 0; t < R->n && !bad; t++) {
            uint64_t b = 1ull << t;
            if (x.w & b) bad = (all & ~b) != 0;
            else if (x.lw & b) bad = (un & ~b) != 0;
        }
        if (bad) {
            if (getenv("SX_DEBUG")) fprintf(stderr, "race at %p r=%lx w=%lx lr=%lx lw=%lx pc=%p\n", (void*) a, (long) x.r, (long) x.w, (long) x.lr, (long) x.lw, x.pc);
            raceCount++;
            break;
        }
    }
    acc->clear();
    R->singleTaken = 0;
    inside = false;
}
void invoke(Micro f, int* gtid, int* btid, std::vector<void*>& a) {
    using P = void*;
    switch (a.size()) {
#define ARG1(i) , a[i]
    case 0: ((void (*)(int*, int*)) f)(gtid, btid); break;
    case 1: ((void (*)(int*, int*, P)) f)(gtid, btid, a[0]); break;
    case 2: ((void (*)(int*, int*, P, P)) f)(gtid, btid, a[0], a[1]); break;
    case 3: ((void (*)(int*, int*, P, P, P)) f)(gtid, btid, a[0], a[1], a[2]); break;
    case 4: ((void (*)(int*, int*, P, P, P, P)) f)(gtid, btid, a[0], a[1], a[2], a[3]); break;
    case 5: ((void (*)(int*, int*, P, P, P, P, P)) f)(gtid, btid, a[0], a[1], a[2], a[3], a[4]); break;
    case 6: ((void (*)(int*, int*, P, P, P, P, P, P)) f)(gtid, btid, a[0], a[1], a[2], a[3], a[4], a[5]); break;
    case 7: ((void (*)(int*, int*, P, P, P, P, P, P, P)) f)(gtid, btid, a[0], a[1], a[2], a[3], a[4], a[5], a[6]); break;
    case 8: ((void (*)(int*, int*, P, P, P, P, P, P, P, P)) f)(gtid, btid, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]); break;
    case 9: ((void (*)(int*, int*, P, P, P, P, P, P, P, P, P)) f)(gtid, btid, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8]); break;
    case 10: ((void (*)(int*, int*, P, P, P, P, P, P, P, P, P, P)) f)(gtid, btid, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9]); break;
    case 11: ((void (*)(int*, int*, P, P, P, P, P, P, P, P, P, P, P)) f)(gtid, btid, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10]); break;
    case 12: ((void (*)(int*, int*, P, P, P, P, P, P, P, P, P, P, P, P)) f)(gtid, btid, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11]); break;
    default: fprintf(stderr, "parallel region with %zu shared variables\n", a.size()); abort();
    }
}
void body() {
    int t = R->cur;
    int g = t, b = t;
    invoke(R->fn, &g, &b, R->args);
    tracking = false;
    R->done[t] = true;
    swapcontext(&R->ctx[t], &R->main);
}
void runRegion(Micro fn, std::vector<void*> args) {
    if (R) { // nested: executed by one thread
        int g = R->cur, b = 0;
        Region* outer = R;
        (void) outer;
        invoke(fn, &g, &b, args);
        return;
    }
    regionCount++;
    if (!stacks) {
        stacks = (char*) mmap(nullptr, STACK * MAXT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        acc = new std::unordered_map<uintptr_t, Access>;
    }
    static Region reg; // one region at a time
    Region& r = reg;
    r.n = cfgThreads;
    r.cur = 0;
    memset(r.done, 0, sizeof r.done);
    memset(r.singles, 0, sizeof r.singles);
    r.singleTaken = 0;
    r.locked = r.initialising = 0;
    r.fn = fn;
    r.args = std::move(args);
    for (auto& d : r.dyn) d.active = false;
    acc->clear();
    R = &r;
    for (int t = 0; t < r.n; t++) {
        getcontext(&r.ctx[t]);
        r.ctx[t].uc_stack.ss_sp = stacks + STACK * size_t(t);
        r.ctx[t].uc_stack.ss_size = STACK;
        r.ctx[t].uc_link = nullptr;
        makecontext(&r.ctx[t], body, 0);
    }
    bool more = true;
    while (more) {
        more = false;
        for (int k = 0; k < r.n; k++) {
            int t = cfgReverse ? r.n - 1 - k : k;
            if (r.done[t]) continue;
            r.cur = t;
            tracking = true;
            swapcontext(&r.main, &r.ctx[t]);
            tracking = false;
            if (!r.done[t]) more = true;
        }
        endEpoch();
    }
    R = nullptr;
}
void yieldThread() {
    if (!R || R->n == 1) { if (R) { tracking = false; endEpoch(); tracking = true; } return; }
    int t = R->cur;
    tracking = false;
    swapcontext(&R->ctx[t], &R->main);
}
} // namespace

namespace sx {
void ompConfig(int threads, bool reverse) { cfgThreads = threads < 1 ? 1 : threads > MAXT ? MAXT : threads; cfgReverse = reverse; }
int ompRaces() { return raceCount; }
long ompRegions() { return regionCount; }
long ompAccesses() { return accessCount; }
void ompAbandon() { R = nullptr; tracking = false; }
} // namespace sx

extern "C" {
// ---------------------------------------------------------------- libomp interface
struct ident_t;
void __kmpc_fork_call(ident_t*, int argc, Micro fn, ...) {
    std::vector<void*> a;
    va_list ap;
    va_start(ap, fn);
    for (int i = 0; i < argc; i++) a.push_back(va_arg(ap, void*));
    va_end(ap);
    runRegion(fn, a);
}
void __kmpc_fork_call_if(ident_t* l, int argc, Micro fn, int cond, void* args) {
    (void) l; (void) argc;
    int save = cfgThreads;
    if (!cond) cfgThreads = 1;
    runRegion(fn, {args});
    cfgThreads = save;
}
int __kmpc_global_thread_num(ident_t*) { return R ? R->cur : 0; }
void __kmpc_push_num_threads(ident_t*, int, int) {}
void __kmpc_push_proc_bind(ident_t*, int, int) {}
void __kmpc_serialized_parallel(ident_t*, int) {}
void __kmpc_end_serialized_parallel(ident_t*, int) {}
void __kmpc_flush(ident_t*) {}
int __kmpc_ok_to_fork(ident_t*) { return 1; }
} // extern "C"
template <class I, class S> static void staticInit(int* plast, I* plo, I* phi, S* pstride, S incr) {
    // plo..phi inclusive; consecutive blocks
    if (!R || R->n == 1) { if (plast) *plast = 1; *pstride = S(incr > 0 ? *phi - *plo + 1 : *plo - *phi + 1); return; }
    long lo = long(*plo), hi = long(*phi), inc = long(incr);
    long trip = inc > 0 ? (hi >= lo ? (hi - lo) / inc + 1 : 0) : (lo >= hi ? (lo - hi) / -inc + 1 : 0);
    long n = R->n, t = R->cur, per = trip / n, rest = trip % n;
    long first = t * per + (t < rest ? t : rest), cnt = per + (t < rest ? 1 : 0);
    *plo = I(lo + first * inc);
    *phi = I(lo + (first + cnt - 1) * inc);
    if (cnt == 0) { *plo = I(hi + inc); *phi = I(hi); if (std::is_unsigned<I>::value && inc > 0 && trip == 0) { *plo = 1; *phi = 0; } }
    if (plast) *plast = cnt > 0 && first + cnt == trip;
    *pstride = S(trip ? trip * inc : inc);
}
extern "C" {
#define SI(N, I, S)                                                                                                                        \
    void __kmpc_for_static_init_##N(ident_t*, int, int, int* last, I* lo, I* hi, S* st, S incr, S) { staticInit<I, S>(last, lo, hi, st, incr); }
SI(4, int32_t, int32_t) SI(4u, uint32_t, int32_t) SI(8, int64_t, int64_t) SI(8u, uint64_t, int64_t)
void __kmpc_for_static_fini(ident_t*, int) {}
static Region::Dyn* ompSerial;
#define DI(N, I, S)                                                                                                                        \
    void __kmpc_dispatch_init_##N(ident_t*, int, int, I lo, I hi, S st, S) {                                                                \
        int t = R ? R->cur : 0;                                                                                                            \
        static Region::Dyn serial;                                                                                                         \
        Region::Dyn& d = R ? R->dyn[t] : serial;                                                                                           \
        d = {long(lo) + t * long(st), long(hi), long(st), 1, true};                                                                        \
        if (!R) ompSerial = &d;                                                                                                            \
    }                                                                                                                                      \
    int __kmpc_dispatch_next_##N(ident_t*, int, int* last, I* lo, I* hi, S* st) {                                                           \
        Region::Dyn& d = R ? R->dyn[R->cur] : *ompSerial;                                                                                  \
        if (d.step > 0 ? d.lo > d.hi : d.lo < d.hi) return 0;                                                                              \
        *lo = *hi = I(d.lo);                                                                                                               \
        *st = S(d.step);                                                                                                                   \
        if (last) *last = d.lo == d.hi;                                                                                                    \
        d.lo += d.step * (R ? R->n : 1);                                                                                                   \
        return 1;                                                                                                                          \
    }                                                                                                                                      \
    void __kmpc_dispatch_fini_##N(ident_t*, int) {}
DI(4, int32_t, int32_t) DI(4u, uint32_t, int32_t) DI(8, int64_t, int64_t) DI(8u, uint64_t, int64_t)
void __kmpc_barrier(ident_t*, int) { if (R) yieldThread(); }
int __kmpc_cancel_barrier(ident_t*, int) { if (R) yieldThread(); return 0; }
int __kmpc_master(ident_t*, int t) { return !R || t == 0; }
void __kmpc_end_master(ident_t*, int) {}
int __kmpc_masked(ident_t*, int t, int f) { return !R || t == f; }
void __kmpc_end_masked(ident_t*, int) {}
int __kmpc_single(ident_t*, int t) {
    if (!R) return 1;
    int k = R->singles[t]++; // the k-th single of this thread
    if (k >= R->singleTaken) { R->singleTaken = k + 1; return 1; }
    return 0;
}
void __kmpc_end_single(ident_t*, int) {}
void __kmpc_critical(ident_t*, int, void*) { if (R) R->locked++; }
void __kmpc_critical_with_hint(ident_t*, int, void*, uint32_t) { if (R) R->locked++; }
void __kmpc_end_critical(ident_t*, int, void*) { if (R) R->locked--; }
int __kmpc_reduce_nowait(ident_t*, int, int, size_t, void*, void (*)(void*, void*), void*) { if (R) R->locked++; return 1; }
void __kmpc_end_reduce_nowait(ident_t*, int, void*) { if (R) R->locked--; }
int __kmpc_reduce(ident_t*, int, int, size_t, void*, void (*)(void*, void*), void*) { if (R) R->locked++; return 1; }
void __kmpc_end_reduce(ident_t*, int, void*) { if (R) { R->locked--; yieldThread(); } }
void __kmpc_ordered(ident_t*, int) {}
void __kmpc_end_ordered(ident_t*, int) {}
int omp_get_thread_num() { return R ? R->cur : 0; }
int omp_get_num_threads() { return R ? R->n : 1; }
int omp_get_max_threads() { return cfgThreads; }
int omp_get_num_procs() { return cfgThreads; }
int omp_in_parallel() { return R != nullptr; }
void omp_set_num_threads(int) {}
void omp_set_dynamic(int) {}
double omp_get_wtime() { return 0; }
using omp_lock_t = void*;
void omp_init_lock(void*) {}
void omp_destroy_lock(void*) {}
void omp_set_lock(void*) { if (R) R->locked++; }
void omp_unset_lock(void*) { if (R) R->locked--; }

// ---------------------------------------------------------------- race instrumentation of the compiler
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void*) { record(p, 8, true); }
void __tsan_vptr_read(void** p) { record(p, 8, false); }
#define RW(n)                                                                                                                              \
    void __tsan_read##n(void* p) { record(p, n, false); }                                                                                  \
    void __tsan_write##n(void* p) { record(p, n, true); }                                                                                  \
    void __tsan_read_write##n(void* p) { record(p, n, false); record(p, n, true); }                                                        \
    void __tsan_unaligned_read##n(void* p) { record(p, n, false); }                                                                        \
    void __tsan_unaligned_write##n(void* p) { record(p, n, true); }                                                                        \
    void __tsan_unaligned_read_write##n(void* p) { record(p, n, false); record(p, n, true); }                                              \
    void __tsan_volatile_read##n(void* p) { record(p, n, false); }                                                                         \
    void __tsan_volatile_write##n(void* p) { record(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void* __tsan_memcpy(void* d, const void* s, size_t n) { record((void*) s, n, false); record(d, n, true); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { record((void*) s, n, false); record(d, n, true); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { record(d, n, true); return memset(d, c, n); }
void __tsan_read_range(void* p, size_t n) { record(p, n, false); }
void __tsan_write_range(void* p, size_t n) { record(p, n, true); }
#define AT(b, T)                                                                                                                           \
    T __tsan_atomic##b##_load(const volatile T* p, int) { record((void*) p, sizeof(T), false, true); return *p; }                          \
    void __tsan_atomic##b##_store(volatile T* p, T v, int) { record((void*) p, sizeof(T), true, true); *p = v; }                           \
    T __tsan_atomic##b##_exchange(volatile T* p, T v, int) { record((void*) p, sizeof(T), true, true); T o = *p; *p = v; return o; }       \
    T __tsan_atomic##b##_fetch_add(volatile T* p, T v, int) { record((void*) p, sizeof(T), true, true); T o = *p; *p = T(o + v); return o; } \
    T __tsan_atomic##b##_fetch_sub(volatile T* p, T v, int) { record((void*) p, sizeof(T), true, true); T o = *p; *p = T(o - v); return o; } \
    T __tsan_atomic##b##_fetch_or(volatile T* p, T v, int) { record((void*) p, sizeof(T), true, true); T o = *p; *p = T(o | v); return o; } \
    T __tsan_atomic##b##_fetch_and(volatile T* p, T v, int) { record((void*) p, sizeof(T), true, true); T o = *p; *p = T(o & v); return o; } \
    T __tsan_atomic##b##_fetch_xor(volatile T* p, T v, int) { record((void*) p, sizeof(T), true, true); T o = *p; *p = T(o ^ v); return o; } \
    T __tsan_atomic##b##_compare_exchange_val(volatile T* p, T e, T v, int, int) {                                                         \
        record((void*) p, sizeof(T), true, true);                                                                                          \
        T o = *p;                                                                                                                          \
        if (o == e) *p = v;                                                                                                                \
        return o;                                                                                                                          \
    }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
} // extern "C"

// Memory released inside a region is not handed out again within it: its reuse by another thread is no race.
// Mutexes count as the one lock of the region; what a static initialiser writes is ordered before its readers.
extern "C" {
void __real_free(void*);
void __wrap_free(void* p) { if (!tracking) __real_free(p); }
int __real_pthread_mutex_lock(void*);
int __real_pthread_mutex_unlock(void*);
int __wrap_pthread_mutex_lock(void* m) { if (R) { R->locked++; return 0; } return __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_unlock(void* m) { if (R) { R->locked--; return 0; } return __real_pthread_mutex_unlock(m); }
int __real___cxa_guard_acquire(void*);
void __real___cxa_guard_release(void*);
int __wrap___cxa_guard_acquire(void* g) { int r = __real___cxa_guard_acquire(g); if (r && R) R->initialising++; return r; }
void __wrap___cxa_guard_release(void* g) { if (R) R->initialising--; __real___cxa_guard_release(g); }
}
void operator delete(void* p) noexcept { if (!tracking) __real_free(p); }
void operator delete[](void* p) noexcept { if (!tracking) __real_free(p); }
void operator delete(void* p, size_t) noexcept { if (!tracking) __real_free(p); }
void operator delete[](void* p, size_t) noexcept { if (!tracking) __real_free(p); }
void* operator new(size_t n) {
    void* p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void* operator new[](size_t n) { return operator new(n); }
