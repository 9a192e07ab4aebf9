// A recording stand-in for the OpenMP and ThreadSanitizer runtimes.
//
// The kernels are compiled with -fopenmp -fsanitize=thread, so the compiler
// calls GOMP_* for every parallel region and __tsan_* for every memory
// access; linked with this file instead of libgomp and libtsan they
//  - run each parallel region on a chosen number of logical threads, one at
//    a time (mode 0) or interleaved at every memory access following a given
//    schedule (mode 1);
//  - record, for every byte touched in a region, which logical threads read
//    or wrote it, plainly or under a lock/atomically.
// Nothing here judges: the records are judged by spec/T_Parallel.tla.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <map>
#include <mutex>
#include <condition_variable>
#include <string>
#include <thread>
#include <tuple>
#include <unordered_map>
#include <utility>
#include <vector>
#include <algorithm>

typedef unsigned long long ull;

namespace {
struct Cell { uint64_t pr = 0, pw = 0, sr = 0, sw = 0; };
struct Class { uint64_t pr, pw, sr, sw; bool operator<(const Class &o) const {
    return std::tie(pr, pw, sr, sw) < std::tie(o.pr, o.pw, o.sr, o.sw); }
    bool operator==(const Class &o) const { return std::tie(pr, pw, sr, sw) == std::tie(o.pr, o.pw, o.sr, o.sw); } };
struct Region { void (*fn)(void *); int nt; uint64_t conc; std::map<Class, long> classes; };

int g_threads = 1, g_mode = 0, g_default = 1;
bool g_on = false;
std::vector<int> g_sched;
size_t g_pos = 0;
long g_switches = 0, g_accesses = 0;
std::vector<Region> g_regions;

std::mutex mu;
std::condition_variable cv;
enum St { RUN, BARRIER, DONE };
struct Team {
    int nt; int cur; std::vector<St> st; int lock_owner = -1; int locked_waiting = 0;
    std::unordered_map<uintptr_t, Cell> cells;
    uint64_t epoch_active = 0;
    // work sharing
    struct Ws { long long start, end, incr, chunk; std::vector<long long> next; bool set = false; };
    std::vector<Ws> ws; std::vector<int> wsidx; std::vector<int> singles;
};
Team *team = nullptr;
thread_local int tid = 0;
thread_local bool inside = false;     // in the runtime
thread_local bool in_region = false;
thread_local int locks = 0;

void pass(std::unique_lock<std::mutex> &lk, int to) {
    int me = tid;
    team->cur = to;
    if (to != me) { g_switches++; cv.notify_all(); cv.wait(lk, [&] { return team->cur == me; }); }
}
int nextrun(int from) {   // next runnable thread after from, or -1
    for (int k = 1; k <= team->nt; k++) { int t = (from + k) % team->nt; if (team->st[t] == RUN) return t; }
    return -1;
}
void flush_epoch() {     // a barrier orders everything before it
    Region *r = &g_regions.back();
    for (auto &kv : team->cells) {
        Class c{kv.second.pr, kv.second.pw, kv.second.sr, kv.second.sw};
        r->classes[c]++;
    }
    team->cells.clear();
}
void note(uintptr_t a, size_t n, bool w, bool sync) {
    if (!in_region || inside || team == nullptr || team->nt < 2) return;
    inside = true;
    sync = sync || locks > 0;
    uint64_t bit = 1ull << tid;
    if (g_on) for (size_t k = 0; k < n; k++) {
        Cell &c = team->cells[a + k];
        (w ? (sync ? c.sw : c.pw) : (sync ? c.sr : c.pr)) |= bit;
    }
    g_accesses++;
    if (g_mode == 1 && !g_sched.empty()) {
        int pick = g_sched[g_pos++ % g_sched.size()];
        std::unique_lock<std::mutex> lk(mu);
        int t = pick % team->nt;
        if (team->st[t] != RUN) t = nextrun(t);
        if (t >= 0 && t != tid) pass(lk, t);
    }
    inside = false;
}
void lock_enter() {
    if (!in_region || team == nullptr) { return; }
    bool was = inside; inside = true;
    {
        std::unique_lock<std::mutex> lk(mu);
        while (team->lock_owner != -1 && team->lock_owner != tid) {
            int t = team->lock_owner;   // let the owner go on
            pass(lk, t);
        }
        team->lock_owner = tid;
    }
    locks++;
    inside = was;
}
void lock_exit() {
    if (!in_region || team == nullptr) return;
    std::unique_lock<std::mutex> lk(mu);
    if (--locks == 0) team->lock_owner = -1;
}
void finish() {
    std::unique_lock<std::mutex> lk(mu);
    team->st[tid] = DONE;
    int t = nextrun(tid);
    if (t < 0) {
        bool bar = false;
        for (int k = 0; k < team->nt; k++) if (team->st[k] == BARRIER) { team->st[k] = RUN; bar = true; }
        if (bar) { flush_epoch(); t = nextrun(tid); }
    }
    if (t >= 0) { team->cur = t; cv.notify_all(); }
    else { team->cur = -1; cv.notify_all(); }
}
void barrier() {
    if (!in_region || team == nullptr || team->nt < 2) return;
    bool was = inside; inside = true;
    {
        std::unique_lock<std::mutex> lk(mu);
        team->st[tid] = BARRIER;
        int t = nextrun(tid);
        if (t < 0) {
            for (int k = 0; k < team->nt; k++) if (team->st[k] == BARRIER) team->st[k] = RUN;
            flush_epoch();
        } else {
            pass(lk, t);
            // resumed: released by the last one
        }
    }
    inside = was;
}
void body(void (*fn)(void *), void *data, int id) {
    tid = id;
    {
        std::unique_lock<std::mutex> lk(mu);
        cv.wait(lk, [&] { return team->cur == id; });
    }
    in_region = true; inside = false; locks = 0;
    fn(data);
    in_region = false;
    finish();
}
void parallel(void (*fn)(void *), void *data, unsigned num, const Team::Ws *preset) {
    if (in_region || team != nullptr) {       // nested: serialised
        fn(data);
        return;
    }
    int nt = num ? (int) num : g_threads;
    if (nt > 64) nt = 64;
    Team t; t.nt = nt; t.cur = 0; t.st.assign(nt, RUN); t.wsidx.assign(nt, 0); t.singles.assign(nt, 0);
    if (preset) { t.ws.push_back(*preset); t.ws[0].set = true; t.ws[0].next.assign(nt, 0); }
    g_regions.push_back(Region{fn, nt, 0, {}});
    team = &t;
    std::vector<std::thread> th;
    for (int k = 1; k < nt; k++) th.emplace_back(body, fn, data, k);
    body(fn, data, 0);
    for (auto &x : th) x.join();
    tid = 0;
    flush_epoch();
    team = nullptr;
    if (!g_on) g_regions.pop_back();
    else {   // keep one record per (fn, classes)
        Region &r = g_regions.back();
        for (size_t k = 0; k + 1 < g_regions.size(); k++)
            if (g_regions[k].fn == r.fn && g_regions[k].classes == r.classes) { g_regions.pop_back(); break; }
    }
}
bool ws_chunk(Team::Ws &w, long *is, long *ie) {
    long long k = tid + (long long) team->nt * w.next[tid]++;
    long long s = w.start + k * w.chunk * w.incr;
    if (w.incr > 0 ? s >= w.end : s <= w.end) return false;
    long long e = s + w.chunk * w.incr;
    if (w.incr > 0 ? e > w.end : e < w.end) e = w.end;
    *is = (long) s; *ie = (long) e;
    return true;
}
bool ws_start(long s, long e, long i, long c, long *is, long *ie) {
    if (team == nullptr) { *is = s; *ie = e; return i > 0 ? s < e : s > e; }
    size_t idx = team->wsidx[tid];
    if (team->ws.size() <= idx) team->ws.resize(idx + 1);
    Team::Ws &w = team->ws[idx];
    if (!w.set) { w.start = s; w.end = e; w.incr = i; w.chunk = c > 0 ? c : 1; w.next.assign(team->nt, 0); w.set = true; }
    return ws_chunk(w, is, ie);
}
bool ws_next(long *is, long *ie) {
    if (team == nullptr) return false;
    return ws_chunk(team->ws[team->wsidx[tid]], is, ie);
}
void ws_end() { if (team) team->wsidx[tid]++; }
}  // namespace

extern "C" {
// ---- control, called from Python ----
void vt_config(int threads, int mode, const int *sched, int n) {
    g_threads = threads; g_mode = mode; g_sched.assign(sched, sched + n); g_pos = 0;
    g_switches = g_accesses = 0;
}
void vt_record(int on) { g_on = on; if (on) g_regions.clear(); }
long vt_switches() { return g_switches; }
long vt_accesses() { return g_accesses; }
void vt_dump(const char *path) {
    FILE *f = fopen(path, "w");
    fprintf(f, "[");
    for (size_t k = 0; k < g_regions.size(); k++) {
        Region &r = g_regions[k];
        Dl_info di; memset(&di, 0, sizeof di);
        dladdr((void *) r.fn, &di);
        fprintf(f, "%s\n{\"fn\": \"%s+%lx\", \"threads\": %d, \"classes\": [", k ? "," : "",
                di.dli_sname ? di.dli_sname : "?", (unsigned long) ((char *) r.fn - (char *) (di.dli_saddr ? di.dli_saddr : di.dli_fbase)), r.nt);
        bool first = true;
        for (auto &c : r.classes) {
            fprintf(f, "%s[%ld", first ? "" : ", ", c.second);
            for (uint64_t m : {c.first.pr, c.first.pw, c.first.sr, c.first.sw}) {
                fprintf(f, ", [");
                bool ff = true;
                for (int b = 0; b < 64; b++) if (m >> b & 1) { fprintf(f, "%s%d", ff ? "" : ",", b); ff = false; }
                fprintf(f, "]");
            }
            fprintf(f, "]");
            first = false;
        }
        fprintf(f, "]}");
    }
    fprintf(f, "]\n");
    fclose(f);
}

// ---- OpenMP ----
int omp_get_thread_num() { return in_region ? tid : 0; }
int omp_get_num_threads() { return in_region && team ? team->nt : 1; }
int omp_get_max_threads() { return g_threads; }
int omp_get_num_procs() { return 8; }
int omp_in_parallel() { return in_region; }
void omp_set_num_threads(int n) { g_default = n; }
void omp_set_dynamic(int) {}
double omp_get_wtime() { return 0; }
void omp_init_lock(void *) {}
void omp_destroy_lock(void *) {}
void omp_set_lock(void *) { lock_enter(); }
void omp_unset_lock(void *) { lock_exit(); }
void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned) { parallel(fn, data, n, nullptr); }
void GOMP_barrier() { barrier(); }
void GOMP_critical_start() { lock_enter(); }
void GOMP_critical_end() { lock_exit(); }
void GOMP_critical_name_start(void **) { lock_enter(); }
void GOMP_critical_name_end(void **) { lock_exit(); }
void GOMP_atomic_start() { lock_enter(); }
void GOMP_atomic_end() { lock_exit(); }
bool GOMP_single_start() { if (!in_region || !team) return true; return tid == 0; }
#define LOOPS(K) \
 bool GOMP_loop_##K##_start(long s, long e, long i, long c, long *is, long *ie) { return ws_start(s, e, i, c, is, ie); } \
 bool GOMP_loop_##K##_next(long *is, long *ie) { return ws_next(is, ie); } \
 void GOMP_parallel_loop_##K(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned) { \
   Team::Ws w; w.start = s; w.end = e; w.incr = i; w.chunk = c > 0 ? c : 1; parallel(fn, d, n, &w); }
LOOPS(static) LOOPS(dynamic) LOOPS(guided) LOOPS(nonmonotonic_dynamic) LOOPS(nonmonotonic_guided)
#define LOOPR(K) \
 bool GOMP_loop_##K##_start(long s, long e, long i, long *is, long *ie) { return ws_start(s, e, i, 1, is, ie); } \
 bool GOMP_loop_##K##_next(long *is, long *ie) { return ws_next(is, ie); } \
 void GOMP_parallel_loop_##K(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned) { \
   Team::Ws w; w.start = s; w.end = e; w.incr = i; w.chunk = 1; parallel(fn, d, n, &w); }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
void GOMP_loop_end() { ws_end(); barrier(); }
void GOMP_loop_end_nowait() { ws_end(); }

// ---- ThreadSanitizer ----
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(N) \
 void __tsan_read##N(void *a) { note((uintptr_t) a, N, false, false); } \
 void __tsan_write##N(void *a) { note((uintptr_t) a, N, true, false); } \
 void __tsan_unaligned_read##N(void *a) { note((uintptr_t) a, N, false, false); } \
 void __tsan_unaligned_write##N(void *a) { note((uintptr_t) a, N, true, false); } \
 void __tsan_volatile_read##N(void *a) { note((uintptr_t) a, N, false, false); } \
 void __tsan_volatile_write##N(void *a) { note((uintptr_t) a, N, true, false); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, unsigned long n) { note((uintptr_t) a, n, false, false); }
void __tsan_write_range(void *a, unsigned long n) { note((uintptr_t) a, n, true, false); }
void __tsan_vptr_update(void **a, void *) { note((uintptr_t) a, 8, true, false); }
void __tsan_vptr_read(void **a) { note((uintptr_t) a, 8, false, false); }
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
#define AT(B, T) \
 T __tsan_atomic##B##_load(const volatile T *a, int) { note((uintptr_t) a, sizeof(T), false, true); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
 void __tsan_atomic##B##_store(volatile T *a, T v, int) { note((uintptr_t) a, sizeof(T), true, true); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##B##_exchange(volatile T *a, T v, int) { note((uintptr_t) a, sizeof(T), true, true); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##B##_fetch_add(volatile T *a, T v, int) { note((uintptr_t) a, sizeof(T), true, true); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##B##_fetch_sub(volatile T *a, T v, int) { note((uintptr_t) a, sizeof(T), true, true); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##B##_fetch_and(volatile T *a, T v, int) { note((uintptr_t) a, sizeof(T), true, true); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##B##_fetch_or(volatile T *a, T v, int) { note((uintptr_t) a, sizeof(T), true, true); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##B##_fetch_xor(volatile T *a, T v, int) { note((uintptr_t) a, sizeof(T), true, true); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
 int __tsan_atomic##B##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { note((uintptr_t) a, sizeof(T), true, true); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
 int __tsan_atomic##B##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { note((uintptr_t) a, sizeof(T), true, true); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##B##_compare_exchange_val(volatile T *a, T c, T v, int, int) { note((uintptr_t) a, sizeof(T), true, true); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)

// memory functions are not instrumented by the compiler
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) { note((uintptr_t) s, n, false, false); note((uintptr_t) d, n, true, false); return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { note((uintptr_t) s, n, false, false); note((uintptr_t) d, n, true, false); return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int v, size_t n) { note((uintptr_t) d, n, true, false); return __real_memset(d, v, n); }
// memory freed by one logical thread must not reappear in another
void __real_free(void *);
void __wrap_free(void *p) { if (!in_region) __real_free(p); }
}
void operator delete(void *p) noexcept { if (!in_region) __real_free(p); }
void operator delete[](void *p) noexcept { if (!in_region) __real_free(p); }
void operator delete(void *p, size_t) noexcept { if (!in_region) __real_free(p); }
void operator delete[](void *p, size_t) noexcept { if (!in_region) __real_free(p); }
