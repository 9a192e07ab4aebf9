#include "standin.hpp"
#include <algorithm>
#include <cstdint>
#include <map>
#include <random>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#include <ucontext.h>
extern "C" { Dim3 cu_threadIdx, cu_blockIdx, cu_blockDim, cu_gridDim; }
extern char __start_cushared[] __attribute__((weak)), __stop_cushared[] __attribute__((weak));
namespace {
const size_t STACK = 64 * 1024;
const int CAP = 3;          // distinct threads remembered per location and kind
typedef std::vector<int> Ids;
struct Cell { Ids k[4]; };  // plain reads, plain writes, atomic reads, atomic writes
typedef std::vector<Ids> Class;
std::map<std::pair<int, Class>, long> g_classes;   // level, class
std::unordered_map<uintptr_t, Cell> blockCells, launchCells;
struct Fiber { ucontext_t ctx; std::vector<char> stack; int state; };   // 0 ready, 1 waiting, 2 done
std::vector<Fiber> fibers;
ucontext_t back;
int cur = -1, curblock = 0;
bool on = false, rec = true;
void (*g_entry)(void **); void **g_args;
int g_bad = 0;              // a thread left while others wait at a barrier
uintptr_t stackLo = 0, stackHi = 0;
std::vector<std::pair<uintptr_t, uintptr_t>> stacks;
void add(Ids &v, int id) { if ((int)v.size() < CAP && std::find(v.begin(), v.end(), id) == v.end()) { v.push_back(id); std::sort(v.begin(), v.end()); } }
bool onStack(uintptr_t a) { return a >= stackLo && a < stackHi; }
bool shared(uintptr_t a) { return a >= (uintptr_t)__start_cushared && a < (uintptr_t)__stop_cushared; }
void note(uintptr_t a, size_t n, bool w, bool atomic) {
    if (!on || !rec || onStack(a)) return;
    int k = (atomic ? 2 : 0) + (w ? 1 : 0);
    for (size_t i = 0; i < n; i += 4) {
        uintptr_t p = (a + i) & ~(uintptr_t)3;
        add(blockCells[p].k[k], cur);
        if (!shared(p)) add(launchCells[p].k[k], curblock);
    }
}
void flush(std::unordered_map<uintptr_t, Cell> &m, int level) {
    for (auto &kv : m) { Class c(kv.second.k, kv.second.k + 4); g_classes[{level, c}]++; }
    m.clear();
}
void trampoline() { g_entry(g_args); fibers[cur].state = 2; swapcontext(&fibers[cur].ctx, &back); }
}
extern "C" {
void cu_sync() { bool o = on; on = false; fibers[cur].state = 1; swapcontext(&fibers[cur].ctx, &back); on = o; }
void cu_atomic(void *p, size_t n) { note((uintptr_t)p, n, true, true); }
// order: seed of the order in which blocks and threads run (0: ascending)
int cu_launch(void (*entry)(void **), void **args, int grid, int block, int order, int record) {
    g_entry = entry; g_args = args; g_bad = 0; rec = record;
    std::mt19937 rng(order);
    std::vector<int> bs(grid), ts(block);
    for (int i = 0; i < grid; i++) bs[i] = i;
    if (order) std::shuffle(bs.begin(), bs.end(), rng);
    static std::vector<char> pool;
    pool.resize((size_t)block * STACK);
    stackLo = (uintptr_t)pool.data(); stackHi = stackLo + pool.size();
    cu_blockDim = {(unsigned)block, 1, 1}; cu_gridDim = {(unsigned)grid, 1, 1};
    for (int b : bs) {
        curblock = b; cu_blockIdx = {(unsigned)b, 0, 0};
        fibers.assign(block, Fiber());
        for (int t = 0; t < block; t++) {
            Fiber &f = fibers[t]; f.state = 0;
            getcontext(&f.ctx); f.ctx.uc_stack.ss_sp = pool.data() + (size_t)t * STACK; f.ctx.uc_stack.ss_size = STACK; f.ctx.uc_link = &back;
            makecontext(&f.ctx, trampoline, 0);
        }
        for (int t = 0; t < block; t++) ts[t] = t;
        for (;;) {
            if (order) std::shuffle(ts.begin(), ts.end(), rng);
            bool any = false;
            for (int t : ts) if (fibers[t].state == 0) {
                any = true; cur = t; cu_threadIdx = {(unsigned)t, 0, 0};
                on = true; swapcontext(&back, &fibers[t].ctx); on = false;
            }
            flush(blockCells, 0);
            if (!any) break;
            int waiting = 0, done = 0;
            for (auto &f : fibers) { waiting += f.state == 1; done += f.state == 2; }
            if (waiting && done) g_bad = 1;
            for (auto &f : fibers) if (f.state == 1) f.state = 0;
        }
    }
    flush(launchCells, 1);
    return g_bad;
}
int cu_classes(long *out, int cap) {   // level, granules, then 4 x (n, ids...)
    int n = 0;
    auto put = [&](long v) { if (n < cap) out[n] = v; n++; };
    for (auto &kv : g_classes) {
        put(kv.first.first); put(kv.second);
        for (auto &ids : kv.first.second) { put((long)ids.size()); for (int i : ids) put(i); }
    }
    return n;
}
void cu_clear() { g_classes.clear(); }
#define A(n) void __tsan_read##n(void *p) { note((uintptr_t)p, n, false, false); } \
             void __tsan_write##n(void *p) { note((uintptr_t)p, n, true, false); } \
             void __tsan_unaligned_read##n(void *p) { note((uintptr_t)p, n, false, false); } \
             void __tsan_unaligned_write##n(void *p) { note((uintptr_t)p, n, true, false); } \
             void __tsan_volatile_read##n(void *p) { note((uintptr_t)p, n, false, false); } \
             void __tsan_volatile_write##n(void *p) { note((uintptr_t)p, n, true, false); } \
             void __tsan_read_write##n(void *p) { note((uintptr_t)p, n, false, false); note((uintptr_t)p, n, true, false); }
A(1) A(2) A(4) A(8) A(16)
void __tsan_read_range(void *p, size_t n) { note((uintptr_t)p, n, false, false); }
void __tsan_write_range(void *p, size_t n) { note((uintptr_t)p, n, true, false); }
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void *, void *) {}
void __tsan_vptr_read(void *) {}
}
