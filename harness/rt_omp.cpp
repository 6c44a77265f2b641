// Controlled OpenMP runtime (GOMP ABI) + TSan instrumentation entry points + memory wrappers.
#include "rt.h"
#include "rt_core.h"
#include <cstdio>
#include <cstring>
#include <cerrno>
#include <new>
#include <unordered_map>
#include <unordered_set>
#include <exception>
#include <algorithm>
#include <stdexcept>
struct omp_lock_t;

using namespace rt;
extern "C" void* __real_memset(void*, int, size_t);
namespace rt {
OmpConfig ompCfg; OmpStats ompStats; LapackCfg lapack; int memFill = -1;
}

namespace {
const int MAXT = 64;
struct Loop { bool init = false; bool up = true; long start = 0, end = 0, incr = 1, chunk = 1, next = 0;
              unsigned long long ustart = 0, uend = 0, uincr = 1, uchunk = 1, unext = 0; bool uup = true; int arrived = 0; int kind = 0; };
struct NestLevel { Loop* solo; int nest; };
struct Fiber {
    rtc::Ctx ctx; rtc::Stack stk{}; int tid = 0; bool done = false; bool waitBarrier = false; void* waitLock = nullptr;
    uint64_t singleCount = 0, loopCount = 0; int env = 0; int64_t loopBase = 0; int nest = 0; Loop* solo = nullptr;   // inside an inactive inner region
};
struct Team {
    std::vector<Fiber*> f; rtc::Ctx back; Fiber* cur = nullptr; void (*fn)(void*) = nullptr; void* data = nullptr;
    int size = 0; uint32_t region = 0; std::vector<int> order; uint64_t singles = 0; std::unordered_map<uint64_t, Loop> loops;
    std::unordered_map<uint64_t, int> singleTaken;
};
Team* team = nullptr;            // active team
inline bool solo() { return !team || (team->cur && team->cur->nest > 0); }   // a team of one thread
bool controlled = false;         // between ompBegin and ompEnd
struct Gran { uint64_t r = 0, w = 0; };
std::unordered_map<uintptr_t, Gran>* seen = nullptr;
std::unordered_set<uintptr_t>* conflicts = nullptr;
std::unordered_map<void*, int>* lockOwner = nullptr;
bool inRt = false;               // guards re-entrance of hooks
size_t decision = 0;
uintptr_t tlsLo = 0, tlsLen = 0;

// ---- arenas -----------------------------------------------------------------------------
const size_t ARENA = size_t(1) << 28;
char* arenaBase = nullptr; size_t arenaOff[MAXT];
bool inArena(void* p) { return arenaBase && (char*)p >= arenaBase && (char*)p < arenaBase + ARENA * MAXT; }
void* arenaAlloc(size_t n, size_t al) {
    int t = team->cur->tid;
    size_t o = (arenaOff[t] + al - 1) & ~(al - 1);
    o += 16; o = (o + al - 1) & ~(al - 1);
    if (o + n + 32 > ARENA) return nullptr;
    arenaOff[t] = o + n + 16;
    char* p = arenaBase + ARENA * t + o;
    ((size_t*)p)[-1] = n;
    return p;
}
size_t arenaSize(void* p) { return ((size_t*)p)[-1]; }
inline bool useArena() { return team && team->cur && controlled && !inRt && arenaBase && team->cur->env == 0; }

void ensureTables() {
    if (!seen) { seen = new std::unordered_map<uintptr_t, Gran>(); conflicts = new std::unordered_set<uintptr_t>(); lockOwner = new std::unordered_map<void*, int>(); }
    if (!tlsLo) { tlsLo = (uintptr_t)rtc::tls().base; tlsLen = rtc::tls().size; }
    if (!arenaBase) arenaBase = (char*)mmap(nullptr, ARENA * MAXT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}

std::vector<int> nthPerm(int n, int k) {
    std::vector<int> a(n); for (int i = 0; i < n; i++) a[i] = i;
    for (int i = 0; i < k; i++) if (!std::next_permutation(a.begin(), a.end())) { }
    return a;
}

bool runnable(Fiber* f) {
    if (f->done || f->waitBarrier) return false;
    if (f->waitLock) { auto it = lockOwner->find(f->waitLock); return it == lockOwner->end(); }
    return true;
}

// choose who runs next; curRunnable: the current fiber could continue.
Fiber* pick(Fiber* cur, bool branch) {
    std::vector<Fiber*> en;
    if (cur && runnable(cur)) en.push_back(cur);
    for (int t : team->order) { Fiber* f = team->f[t]; if (f != cur && runnable(f)) en.push_back(f); }
    if (en.empty()) return nullptr;
    int ch = 0;
    if (branch && controlled && ompCfg.explore && en.size() > 1) {
        bool pre = cur && en[0] == cur;
        if (decision < ompCfg.prefix.size()) { ch = ompCfg.prefix[decision]; if (ch >= (int)en.size()) ch = 0; }
        decision++;
        ompStats.points.push_back({ch, (int)en.size(), pre, team->region});
    }
    return en[ch];
}

void switchTo(Fiber* from, Fiber* to) {
    if (from == to) return;
    team->cur = to;
    rtc::swapTo(from->ctx, to->ctx);
}

void yieldPoint() {              // preemptible point of the running fiber
    if (!team || !team->cur || team->size < 2) return;
    if (ompStats.points.size() > 2000000) { ompStats.overrun = true; return; }
    bool o = inRt; inRt = true;
    Fiber* c = team->cur; Fiber* n = pick(c, true);
    if (n && n != c) switchTo(c, n);
    inRt = o;
}
bool regionBranches();
void blockHere() {               // running fiber cannot continue
    bool o = inRt; inRt = true;
    Fiber* c = team->cur;
    while (!runnable(c)) {
        Fiber* n = pick(c, true);
        if (!n) { ompStats.deadlock = true; team->cur = nullptr; rtc::swapTo(c->ctx, team->back); }
        else switchTo(c, n);
    }
    inRt = o;
}
extern "C" void fiberMain(unsigned lo, unsigned hi) {
    Fiber* f = (Fiber*)(((uintptr_t)hi << 32) | (uintptr_t)lo);
    inRt = false;
    try { team->fn(team->data); }
    catch (...) { ompStats.escaped = true; }
    inRt = true;
    f->done = true;
    // barrier release: threads waiting while others finish is non-conforming; treat all waiting => release
    Fiber* n = pick(nullptr, regionBranches());
    if (!n) {
        bool anyWait = false; for (auto g : team->f) if (!g->done) anyWait = true;
        if (anyWait) ompStats.deadlock = true;
        team->cur = nullptr;
        rtc::swapTo(f->ctx, team->back);
    } else { team->cur = n; rtc::swapTo(f->ctx, n->ctx); }
    abort();
}
bool regionBranches() { return team && ompCfg.explore && !conflicts->empty(); }

inline void onAccess(uintptr_t a, size_t n, bool w) {
    if (!team || inRt || !controlled) return;
    Fiber* c = team->cur; if (!c || c->env) return;
    if (a >= (uintptr_t)c->stk.base && a < (uintptr_t)c->stk.base + c->stk.size) return;
    if (team->size < 2) return;
    if (a - tlsLo < tlsLen || a == (uintptr_t)&errno) return;
    inRt = true;
    ompStats.accesses++;
    bool hit = false;
    for (uintptr_t g = a >> 3; g <= (a + n - 1) >> 3; g++) {
        if (ompCfg.record) { Gran& x = (*seen)[g]; uint64_t b = 1ull << c->tid; if (w) x.w |= b; else x.r |= b; }
        if (ompCfg.explore && !hit && conflicts->count(g)) hit = true;
    }
    inRt = false;
    if (hit) yieldPoint();
}
void flushRegion() {             // conflicts of the region just finished
    if (!ompCfg.record) return;
    inRt = true;
    for (auto& kv : *seen) {
        uint64_t all = kv.second.r | kv.second.w;
        if (kv.second.w && (all & (all - 1))) { if (conflicts->insert(kv.first).second) ompStats.conflicts++; }
    }
    seen->clear();
    inRt = false;
}
}

namespace rt {
void ompBegin() {
    ensureTables(); ompStats = OmpStats(); decision = 0; memset(arenaOff, 0, sizeof arenaOff); seen->clear(); lockOwner->clear(); controlled = true;
}
void ompEnd() { controlled = false; }
void ompClearConflicts() { ensureTables(); conflicts->clear(); }
size_t ompConflictCount() { ensureTables(); return conflicts->size(); }
size_t ompMergeConflicts() { return ompStats.conflicts; }
void envEnter() {
    if (team && team->cur) { team->cur->env++; if (ompCfg.envPoints && team->cur->env == 1 && controlled) { team->cur->env = 0; yieldPoint(); team->cur->env = 1; } }
}
void envLeave() { if (team && team->cur) team->cur->env--; }
int curThread() { return team && team->cur ? team->cur->tid : 0; }
bool inParallel() { return team != nullptr; }
}

// ---- GOMP ------------------------------------------------------------------------------------
static void runTeamPlain(void (*fn)(void*), void* data, int n, Team& t) {
    // one thread after the other on the caller's stack (used when no fiber is wanted)
    for (int i = 0; i < n; i++) { t.cur = t.f[i]; try { fn(data); } catch (...) { ompStats.escaped = true; } }
}

extern "C" {
void GOMP_parallel(void (*fn)(void*), void* data, unsigned nthreads, unsigned flags) {
    (void)flags; ensureTables();
    if (team) { // nested: inactive parallelism
        Fiber* c = team->cur; NestLevel l{c->solo, c->nest}; c->nest++; c->solo = nullptr;
        try { fn(data); } catch (...) { ompStats.escaped = true; }
        delete c->solo; c->solo = l.solo; c->nest = l.nest;
        if (ompStats.escaped) { ompStats.escaped = false; throw std::runtime_error("@terminate: exception left a parallel region"); }
        return;
    }
    int n = nthreads ? (int)nthreads : ompCfg.maxThreads;
    if (n < 1) n = 1;
    if (n > ompCfg.teamLimit) n = ompCfg.teamLimit;
    if (n > MAXT) n = MAXT;
    if (!controlled && n > 1) { }
    Team t; t.size = n; t.fn = fn; t.data = data; t.region = (uint32_t)ompStats.regions++;
    if ((uint64_t)n > ompStats.maxTeam) ompStats.maxTeam = n;
    inRt = true;
    std::vector<Fiber> fs(n);
    for (int i = 0; i < n; i++) { fs[i].tid = i; t.f.push_back(&fs[i]); }
    int perm = (ompCfg.orderRegion == -2 || ompCfg.orderRegion == (int)t.region) ? ompCfg.orderPerm : 0;
    t.order = nthPerm(n, perm);
    team = &t;
#ifdef MC_ASAN
    inRt = false; runTeamPlain(fn, data, n, t); inRt = true;
#else
    if (n == 1) { inRt = false; t.cur = &fs[0];
        try { fn(data); } catch (...) { ompStats.escaped = true; }
        inRt = true; }
    else {
        for (int i = 0; i < n; i++) {
            Fiber& f = fs[i]; f.stk = rtc::getStack(); if (memFill >= 0) __real_memset(f.stk.base, memFill, f.stk.size); getcontext(&f.ctx.uc);
            f.ctx.uc.uc_stack.ss_sp = f.stk.base; f.ctx.uc.uc_stack.ss_size = f.stk.size; f.ctx.uc.uc_link = nullptr;
            uintptr_t p = (uintptr_t)&f;
            makecontext(&f.ctx.uc, (void (*)())fiberMain, 2, (unsigned)(p & 0xffffffffu), (unsigned)(p >> 32));
        }
        Fiber* first = pick(nullptr, regionBranches());
        t.cur = first; rtc::tlsSave(fs[0].ctx);
        rtc::swapTo(t.back, first->ctx);
        rtc::tlsLoad(fs[0].ctx);
        for (auto& f : fs) rtc::putStack(f.stk);
    }
#endif
    inRt = true;
    team = nullptr;
    flushRegion();
    inRt = false;
    if (ompStats.escaped) { ompStats.escaped = false; throw std::runtime_error("@terminate: exception left a parallel region"); }
    if (ompStats.deadlock) throw std::runtime_error("@deadlock in parallel region");
}
void GOMP_parallel_start(void (*)(void*), void*, unsigned) { abort(); }
void GOMP_parallel_end(void) { abort(); }
void GOMP_barrier(void) {
    if (solo() || team->size < 2) return;
#ifndef MC_ASAN
    Fiber* c = team->cur; c->waitBarrier = true;
    bool all = true; for (auto f : team->f) if (!f->done && !f->waitBarrier) all = false;
    if (all) { for (auto f : team->f) f->waitBarrier = false; yieldPoint(); }
    else blockHere();
#endif
}
static void lockAcq(void* l) {
    if (!team || team->size < 2) return;
#ifndef MC_ASAN
    yieldPoint();
    Fiber* c = team->cur;
    bool o = inRt; inRt = true; bool held = lockOwner->count(l); inRt = o;
    while (held) { c->waitLock = l; blockHere(); c->waitLock = nullptr; o = inRt; inRt = true; held = lockOwner->count(l); inRt = o; }
    o = inRt; inRt = true; (*lockOwner)[l] = c->tid; inRt = o;
#endif
}
static void lockRel(void* l) {
    if (!team || team->size < 2) return;
#ifndef MC_ASAN
    bool o = inRt; inRt = true; lockOwner->erase(l); inRt = o;
    yieldPoint();
#endif
}
static char criticalTag, atomicTag;
void GOMP_critical_start(void) { lockAcq(&criticalTag); }
void GOMP_critical_end(void) { lockRel(&criticalTag); }
void GOMP_critical_name_start(void** p) { lockAcq(p); }
void GOMP_critical_name_end(void** p) { lockRel(p); }
void GOMP_atomic_start(void) { lockAcq(&atomicTag); }
void GOMP_atomic_end(void) { lockRel(&atomicTag); }
void GOMP_ordered_start(void) {}
void GOMP_ordered_end(void) {}
bool GOMP_single_start(void) {
    if (solo() || team->size < 2) return true;
    uint64_t k = team->cur->singleCount++;
    bool o = inRt; inRt = true; bool first = team->singleTaken[k]++ == 0; inRt = o;
    return first;
}
void GOMP_taskwait(void) {}
void GOMP_task(void (*fn)(void*), void* data, void (*cpyfn)(void*, void*), long arg_size, long arg_align, bool, unsigned, void**, int, void*) {
    // undeferred execution (a conforming choice)
    if (cpyfn) { char* buf = (char*)::operator new(arg_size + arg_align); char* p = (char*)(((uintptr_t)buf + arg_align - 1) / arg_align * arg_align); cpyfn(p, data); fn(p); ::operator delete(buf); }
    else fn(data);
}
void GOMP_taskgroup_start(void) {}
void GOMP_taskgroup_end(void) {}
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }

// work-shared loops with a run-time schedule.  kind: 0 dynamic-like
static Loop& curLoop() { uint64_t k = team->cur->loopCount; return team->loops[k]; }
static Loop soloLoop;
static Loop& L() { if (!team) return soloLoop; if (solo()) { if (!team->cur->solo) { bool o = inRt; inRt = true; team->cur->solo = new Loop(); inRt = o; } return *team->cur->solo; } bool o = inRt; inRt = true; Loop& l = curLoop(); inRt = o; return l; }
bool GOMP_loop_dynamic_next(long* is, long* ie);
static bool loopStart(long s, long e, long inc, long chunk, long* is, long* ie) {
    if (!solo()) team->cur->loopCount++;
    Loop& l = L();
    if (solo() || !l.init) { l.init = true; l.start = s; l.end = e; l.incr = inc; l.chunk = chunk < 1 ? 1 : chunk; l.next = s; }
    return GOMP_loop_dynamic_next(is, ie);
}
bool GOMP_loop_dynamic_next(long* is, long* ie) {
    if (team) yieldPoint();
    Loop& l = L();
    long n = l.next;
    if (l.incr > 0 ? n >= l.end : n <= l.end) return false;
    long m = n + l.incr * l.chunk;
    if (l.incr > 0 ? m > l.end : m < l.end) m = l.end;
    l.next = m; *is = n; *ie = m; return true;
}
#define LOOPKIND(K) \
bool GOMP_loop_##K##_start(long s, long e, long inc, long chunk, long* is, long* ie) { return loopStart(s, e, inc, chunk, is, ie); }
LOOPKIND(dynamic) LOOPKIND(guided) LOOPKIND(static) LOOPKIND(nonmonotonic_dynamic) LOOPKIND(nonmonotonic_guided)
bool GOMP_loop_runtime_start(long s, long e, long inc, long* is, long* ie) { return loopStart(s, e, inc, 1, is, ie); }
bool GOMP_loop_nonmonotonic_runtime_start(long s, long e, long inc, long* is, long* ie) { return loopStart(s, e, inc, 1, is, ie); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long inc, long* is, long* ie) { return loopStart(s, e, inc, 1, is, ie); }
bool GOMP_loop_guided_next(long* a, long* b) { return GOMP_loop_dynamic_next(a, b); }
bool GOMP_loop_static_next(long* a, long* b) { return GOMP_loop_dynamic_next(a, b); }
bool GOMP_loop_runtime_next(long* a, long* b) { return GOMP_loop_dynamic_next(a, b); }
bool GOMP_loop_nonmonotonic_dynamic_next(long* a, long* b) { return GOMP_loop_dynamic_next(a, b); }
bool GOMP_loop_nonmonotonic_guided_next(long* a, long* b) { return GOMP_loop_dynamic_next(a, b); }
bool GOMP_loop_nonmonotonic_runtime_next(long* a, long* b) { return GOMP_loop_dynamic_next(a, b); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long* a, long* b) { return GOMP_loop_dynamic_next(a, b); }
typedef unsigned long long ull;
bool GOMP_loop_ull_dynamic_next(ull* is, ull* ie);
static bool uloopStart(bool up, ull s, ull e, ull inc, ull chunk, ull* is, ull* ie) {
    if (!solo()) team->cur->loopCount++;
    Loop& l = L();
    if (solo() || !l.init) { l.init = true; l.uup = up; l.ustart = s; l.uend = e; l.uincr = inc; l.uchunk = chunk < 1 ? 1 : chunk; l.unext = s; }
    return GOMP_loop_ull_dynamic_next(is, ie);
}
bool GOMP_loop_ull_dynamic_next(ull* is, ull* ie) {
    if (team) yieldPoint();
    Loop& l = L();
    ull n = l.unext;
    if (l.uup ? n >= l.uend : n <= l.uend) return false;
    ull m = n + l.uincr * l.uchunk;
    if (l.uup ? m > l.uend : m < l.uend) m = l.uend;
    l.unext = m; *is = n; *ie = m; return true;
}
#define ULOOPKIND(K) \
bool GOMP_loop_ull_##K##_start(bool up, ull s, ull e, ull inc, ull chunk, ull* is, ull* ie) { return uloopStart(up, s, e, inc, chunk, is, ie); }
ULOOPKIND(dynamic) ULOOPKIND(guided) ULOOPKIND(static) ULOOPKIND(nonmonotonic_dynamic) ULOOPKIND(nonmonotonic_guided)
bool GOMP_loop_ull_runtime_start(bool up, ull s, ull e, ull inc, ull* is, ull* ie) { return uloopStart(up, s, e, inc, 1, is, ie); }
bool GOMP_loop_ull_nonmonotonic_runtime_start(bool up, ull s, ull e, ull inc, ull* is, ull* ie) { return uloopStart(up, s, e, inc, 1, is, ie); }
bool GOMP_loop_ull_maybe_nonmonotonic_runtime_start(bool up, ull s, ull e, ull inc, ull* is, ull* ie) { return uloopStart(up, s, e, inc, 1, is, ie); }
bool GOMP_loop_ull_guided_next(ull* a, ull* b) { return GOMP_loop_ull_dynamic_next(a, b); }
bool GOMP_loop_ull_static_next(ull* a, ull* b) { return GOMP_loop_ull_dynamic_next(a, b); }
bool GOMP_loop_ull_runtime_next(ull* a, ull* b) { return GOMP_loop_ull_dynamic_next(a, b); }
bool GOMP_loop_ull_nonmonotonic_dynamic_next(ull* a, ull* b) { return GOMP_loop_ull_dynamic_next(a, b); }
bool GOMP_loop_ull_nonmonotonic_guided_next(ull* a, ull* b) { return GOMP_loop_ull_dynamic_next(a, b); }
bool GOMP_loop_ull_nonmonotonic_runtime_next(ull* a, ull* b) { return GOMP_loop_ull_dynamic_next(a, b); }
bool GOMP_loop_ull_maybe_nonmonotonic_runtime_next(ull* a, ull* b) { return GOMP_loop_ull_dynamic_next(a, b); }
void GOMP_loop_end(void) { GOMP_barrier(); }
void GOMP_loop_end_nowait(void) {}
bool GOMP_loop_end_cancel(void) { GOMP_barrier(); return false; }
// combined parallel + run-time scheduled loop
struct PL { void (*fn)(void*); void* data; };
static void parLoop(void (*fn)(void*), void* data, unsigned nt, long s, long e, long inc, long chunk, unsigned fl) {
    struct A { void (*fn)(void*); void* data; long s, e, inc, chunk; } a{fn, data, s, e, inc, chunk};
    GOMP_parallel([](void* p) {
        A* a = (A*)p;
        team->cur->loopCount++;
        Loop& l = L(); if (!l.init) { l.init = true; l.start = a->s; l.end = a->e; l.incr = a->inc; l.chunk = a->chunk < 1 ? 1 : a->chunk; l.next = a->s; }
        a->fn(a->data); }, &a, nt, fl);
}
void GOMP_parallel_loop_dynamic(void (*f)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned fl) { parLoop(f, d, n, s, e, i, c, fl); }
void GOMP_parallel_loop_guided(void (*f)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned fl) { parLoop(f, d, n, s, e, i, c, fl); }
void GOMP_parallel_loop_static(void (*f)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned fl) { parLoop(f, d, n, s, e, i, c, fl); }
void GOMP_parallel_loop_runtime(void (*f)(void*), void* d, unsigned n, long s, long e, long i, unsigned fl) { parLoop(f, d, n, s, e, i, 1, fl); }
void GOMP_parallel_loop_nonmonotonic_dynamic(void (*f)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned fl) { parLoop(f, d, n, s, e, i, c, fl); }
void GOMP_parallel_loop_nonmonotonic_guided(void (*f)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned fl) { parLoop(f, d, n, s, e, i, c, fl); }
void GOMP_parallel_loop_nonmonotonic_runtime(void (*f)(void*), void* d, unsigned n, long s, long e, long i, unsigned fl) { parLoop(f, d, n, s, e, i, 1, fl); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*f)(void*), void* d, unsigned n, long s, long e, long i, unsigned fl) { parLoop(f, d, n, s, e, i, 1, fl); }
// sections
unsigned GOMP_sections_next(void) { long a, b; return GOMP_loop_dynamic_next(&a, &b) ? (unsigned)a : 0; }
unsigned GOMP_sections_start(unsigned count) { long a, b; return loopStart(1, (long)count + 1, 1, 1, &a, &b) ? (unsigned)a : 0; }
void GOMP_parallel_sections(void (*f)(void*), void* d, unsigned n, unsigned count, unsigned fl) { parLoop(f, d, n, 1, (long)count + 1, 1, 1, fl); }
void GOMP_sections_end(void) { GOMP_barrier(); }
void GOMP_sections_end_nowait(void) {}
// reductions with the task/explicit interface
unsigned GOMP_parallel_reductions(void (*fn)(void*), void* data, unsigned n, unsigned fl) { int t = n ? (int)n : ompCfg.maxThreads; if (t > ompCfg.teamLimit) t = ompCfg.teamLimit; GOMP_parallel(fn, data, t, fl); return t; }

int omp_get_thread_num(void) { return team && team->cur && !solo() ? team->cur->tid : 0; }
int omp_get_num_threads(void) { return team && !solo() ? team->size : 1; }
int omp_get_max_threads(void) { ompStats.envQueries++; return ompCfg.maxThreads; }
int omp_get_num_procs(void) { ompStats.envQueries++; return ompCfg.procs; }
int omp_in_parallel(void) { return team && team->size > 1; }
void omp_set_num_threads(int n) { ompCfg.maxThreads = n; }
int omp_get_dynamic(void) { return 0; }
void omp_set_dynamic(int) {}
int omp_get_nested(void) { return 0; }
void omp_set_nested(int) {}
int omp_get_level(void) { return team ? 1 : 0; }
int omp_get_active_level(void) { return team ? 1 : 0; }
int omp_get_thread_limit(void) { ompStats.envQueries++; return ompCfg.teamLimit; }
int omp_get_max_active_levels(void) { return 1; }
void omp_set_max_active_levels(int) {}
double omp_get_wtime(void) { return 0.0; }
double omp_get_wtick(void) { return 1e-9; }
void omp_init_lock(omp_lock_t*) noexcept {}
void omp_destroy_lock(omp_lock_t*) noexcept {}
void omp_set_lock(omp_lock_t* l) noexcept { lockAcq(l); }
void omp_unset_lock(omp_lock_t* l) noexcept { lockRel(l); }
int omp_test_lock(omp_lock_t* l) noexcept { if (!team || team->size < 2) return 1; yieldPoint(); if (lockOwner->count(l)) return 0; (*lockOwner)[l] = team->cur->tid; return 1; }

// ---- TSan instrumentation ABI ------------------------------------------------------------------
#ifndef MC_ASAN
#define ACC(n) \
void __tsan_read##n(void* p) { onAccess((uintptr_t)p, n, false); } \
void __tsan_write##n(void* p) { onAccess((uintptr_t)p, n, true); } \
void __tsan_unaligned_read##n(void* p) { onAccess((uintptr_t)p, n, false); } \
void __tsan_unaligned_write##n(void* p) { onAccess((uintptr_t)p, n, true); } \
void __tsan_volatile_read##n(void* p) { onAccess((uintptr_t)p, n, false); } \
void __tsan_volatile_write##n(void* p) { onAccess((uintptr_t)p, n, true); } \
void __tsan_read##n##_pc(void* p, void*) { onAccess((uintptr_t)p, n, false); } \
void __tsan_write##n##_pc(void* p, void*) { onAccess((uintptr_t)p, n, true); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void* p, unsigned long n) { if (n) onAccess((uintptr_t)p, n, false); }
void __tsan_write_range(void* p, unsigned long n) { if (n) onAccess((uintptr_t)p, n, true); }
void __tsan_init(void) {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void** p, void*) { onAccess((uintptr_t)p, 8, true); }
void __tsan_vptr_read(void** p) { onAccess((uintptr_t)p, 8, false); }
#define ATOM(T, B) \
T __tsan_atomic##B##_load(const volatile T* a, int) { onAccess((uintptr_t)a, sizeof(T), false); return *a; } \
void __tsan_atomic##B##_store(volatile T* a, T v, int) { onAccess((uintptr_t)a, sizeof(T), true); *a = v; } \
T __tsan_atomic##B##_exchange(volatile T* a, T v, int) { onAccess((uintptr_t)a, sizeof(T), true); T o = *a; *a = v; return o; } \
T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int) { onAccess((uintptr_t)a, sizeof(T), true); T o = *a; *a = o + v; return o; } \
T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int) { onAccess((uintptr_t)a, sizeof(T), true); T o = *a; *a = o - v; return o; } \
T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int) { onAccess((uintptr_t)a, sizeof(T), true); T o = *a; *a = o & v; return o; } \
T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int) { onAccess((uintptr_t)a, sizeof(T), true); T o = *a; *a = o | v; return o; } \
T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int) { onAccess((uintptr_t)a, sizeof(T), true); T o = *a; *a = o ^ v; return o; } \
bool __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { onAccess((uintptr_t)a, sizeof(T), true); if (*a == *c) { *a = v; return true; } *c = *a; return false; } \
bool __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* c, T v, int m, int n) { return __tsan_atomic##B##_compare_exchange_strong(a, c, v, m, n); } \
T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T c, T v, int, int) { onAccess((uintptr_t)a, sizeof(T), true); T o = *a; if (o == c) *a = v; return o; }
ATOM(unsigned char, 8) ATOM(unsigned short, 16) ATOM(unsigned int, 32) ATOM(unsigned long, 64)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// ---- memory ------------------------------------------------------------------------------------
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
void* __real_malloc(size_t); void __real_free(void*); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t);
int __real_posix_memalign(void**, size_t, size_t); void* __real_aligned_alloc(size_t, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { if (n && team) { onAccess((uintptr_t)s, n, false); onAccess((uintptr_t)d, n, true); } return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { if (n && team) { onAccess((uintptr_t)s, n, false); onAccess((uintptr_t)d, n, true); } return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { if (n && team) onAccess((uintptr_t)d, n, true); return __real_memset(d, c, n); }
static inline void* fillMem(void* p, size_t n) { if (memFill >= 0 && p) __real_memset(p, memFill, n); return p; }
void* __wrap_malloc(size_t n) { if (useArena()) { void* p = arenaAlloc(n, 16); if (p) return fillMem(p, n); } return fillMem(__real_malloc(n), n); }
void __wrap_free(void* p) { if (inArena(p)) return; __real_free(p); }
void* __wrap_calloc(size_t a, size_t b) { if (useArena()) { void* p = arenaAlloc(a * b, 16); if (p) { __real_memset(p, 0, a * b); return p; } } return __real_calloc(a, b); }
void* __wrap_realloc(void* q, size_t n) {
    if (inArena(q) || useArena()) { void* p = __wrap_malloc(n); if (q) { size_t o = inArena(q) ? arenaSize(q) : n; __real_memcpy(p, q, o < n ? o : n); __wrap_free(q); } return p; }
    return __real_realloc(q, n);
}
int __wrap_posix_memalign(void** o, size_t al, size_t n) { if (useArena()) { void* p = arenaAlloc(n, al < 16 ? 16 : al); if (p) { *o = fillMem(p, n); return 0; } } int rc = __real_posix_memalign(o, al, n); if (!rc) fillMem(*o, n); return rc; }
void* __wrap_aligned_alloc(size_t al, size_t n) { if (useArena()) { void* p = arenaAlloc(n, al < 16 ? 16 : al); if (p) return fillMem(p, n); } return fillMem(__real_aligned_alloc(al, n), n); }
#endif
}
#ifndef MC_ASAN
void* operator new(size_t n) { void* p = __wrap_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return ::operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return __wrap_malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return __wrap_malloc(n ? n : 1); }
void operator delete(void* p) noexcept { __wrap_free(p); }
void operator delete[](void* p) noexcept { __wrap_free(p); }
void operator delete(void* p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void* p, size_t) noexcept { __wrap_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { __wrap_free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { __wrap_free(p); }
#endif

// ---- BLAS / LAPACK entry points ----------------------------------------------------------------
#ifndef MC_ASAN
extern "C" {
typedef const char* cc; typedef const int* ci; typedef const double* cd;
void __real_dgemm_(cc, cc, ci, ci, ci, cd, cd, ci, cd, ci, cd, double*, ci, size_t, size_t);
void __wrap_dgemm_(cc ta, cc tb, ci m, ci n, ci k, cd al, cd a, ci lda, cd b, ci ldb, cd be, double* c, ci ldc, size_t l1, size_t l2) {
    if (team && *m > 0 && *n > 0) {
        if (*k > 0) { onAccess((uintptr_t)a, 8 * (size_t)*m * *k, false); onAccess((uintptr_t)b, 8 * (size_t)*n * *k, false); }
        onAccess((uintptr_t)c, 8 * (size_t)*m * *n, true);
    }
    __real_dgemm_(ta, tb, m, n, k, al, a, lda, b, ldb, be, c, ldc, l1, l2);
}
void __real_dgemv_(cc, ci, ci, cd, cd, ci, cd, ci, cd, double*, ci, size_t);
void __wrap_dgemv_(cc t, ci m, ci n, cd al, cd a, ci lda, cd x, ci ix, cd be, double* y, ci iy, size_t l) {
    if (team && *m > 0 && *n > 0) {
        bool tr = *t != 'N' && *t != 'n';
        onAccess((uintptr_t)a, 8 * (size_t)*m * *n, false); onAccess((uintptr_t)x, 8 * (size_t)(tr ? *m : *n), false);
        onAccess((uintptr_t)y, 8 * (size_t)(tr ? *n : *m), true);
    }
    __real_dgemv_(t, m, n, al, a, lda, x, ix, be, y, iy, l);
}
void __real_dsyrk_(cc, cc, ci, ci, cd, cd, ci, cd, double*, ci, size_t, size_t);
void __wrap_dsyrk_(cc u, cc t, ci n, ci k, cd al, cd a, ci lda, cd be, double* c, ci ldc, size_t l1, size_t l2) {
    if (team && *n > 0 && *k > 0) { onAccess((uintptr_t)a, 8 * (size_t)*n * *k, false); onAccess((uintptr_t)c, 8 * (size_t)*n * *n, true); }
    __real_dsyrk_(u, t, n, k, al, a, lda, be, c, ldc, l1, l2);
}
// factorisations: an injected failure is what LAPACK reports for a singular matrix
static bool inject() {
    long k = lapack.count++;
    bool f = lapack.failAt >= 0 && (lapack.sticky ? k >= lapack.failAt : k == lapack.failAt);
    if (f) lapack.injected++;
    return f;
}
void __real_dpotrf_(cc, ci, double*, ci, int*, size_t);
void __wrap_dpotrf_(cc u, ci n, double* a, ci lda, int* info, size_t l) { if (inject()) { *info = 1; return; } __real_dpotrf_(u, n, a, lda, info, l); }
void __real_dpotri_(cc, ci, double*, ci, int*, size_t);
void __wrap_dpotri_(cc u, ci n, double* a, ci lda, int* info, size_t l) { __real_dpotri_(u, n, a, lda, info, l); }
void __real_dgetrf_(ci, ci, double*, ci, int*, int*);
void __wrap_dgetrf_(ci m, ci n, double* a, ci lda, int* ip, int* info) { if (inject()) { *info = 1; return; } __real_dgetrf_(m, n, a, lda, ip, info); }
void __real_dgetri_(ci, double*, ci, ci, double*, ci, int*);
void __wrap_dgetri_(ci n, double* a, ci lda, ci ip, double* w, ci lw, int* info) { __real_dgetri_(n, a, lda, ip, w, lw, info); }
void __real_dgesv_(ci, ci, double*, ci, int*, double*, ci, int*);
void __wrap_dgesv_(ci n, ci nr, double* a, ci lda, int* ip, double* b, ci ldb, int* info) { if (inject()) { *info = 1; return; } __real_dgesv_(n, nr, a, lda, ip, b, ldb, info); }
void __real_dposv_(cc, ci, ci, double*, ci, double*, ci, int*, size_t);
void __wrap_dposv_(cc u, ci n, ci nr, double* a, ci lda, double* b, ci ldb, int* info, size_t l) { if (inject()) { *info = 1; return; } __real_dposv_(u, n, nr, a, lda, b, ldb, info, l); }
void __real_dgesvx_(cc, cc, ci, ci, double*, ci, double*, ci, int*, char*, double*, double*, double*, ci, double*, ci, double*, double*, double*, double*, int*, int*, size_t, size_t, size_t);
void __wrap_dgesvx_(cc f, cc t, ci n, ci nr, double* a, ci lda, double* af, ci ldaf, int* ip, char* eq, double* r, double* c, double* b, ci ldb, double* x, ci ldx, double* rc, double* fe, double* be, double* w, int* iw, int* info, size_t l1, size_t l2, size_t l3) {
    __real_dgesvx_(f, t, n, nr, a, lda, af, ldaf, ip, eq, r, c, b, ldb, x, ldx, rc, fe, be, w, iw, info, l1, l2, l3);
}
void __real_dposvx_(cc, cc, ci, ci, double*, ci, double*, ci, char*, double*, double*, ci, double*, ci, double*, double*, double*, double*, int*, int*, size_t, size_t, size_t);
void __wrap_dposvx_(cc f, cc u, ci n, ci nr, double* a, ci lda, double* af, ci ldaf, char* eq, double* s, double* b, ci ldb, double* x, ci ldx, double* rc, double* fe, double* be, double* w, int* iw, int* info, size_t l1, size_t l2, size_t l3) {
    __real_dposvx_(f, u, n, nr, a, lda, af, ldaf, eq, s, b, ldb, x, ldx, rc, fe, be, w, iw, info, l1, l2, l3);
}
void __real_dgesdd_(cc, ci, ci, double*, ci, double*, double*, ci, double*, ci, double*, ci, int*, int*, size_t);
void __wrap_dgesdd_(cc j, ci m, ci n, double* a, ci lda, double* s, double* u, ci ldu, double* vt, ci ldvt, double* w, ci lw, int* iw, int* info, size_t l) { __real_dgesdd_(j, m, n, a, lda, s, u, ldu, vt, ldvt, w, lw, iw, info, l); }
void __real_dgesvd_(cc, cc, ci, ci, double*, ci, double*, double*, ci, double*, ci, double*, ci, int*, size_t, size_t);
void __wrap_dgesvd_(cc ju, cc jv, ci m, ci n, double* a, ci lda, double* s, double* u, ci ldu, double* vt, ci ldvt, double* w, ci lw, int* info, size_t l1, size_t l2) { __real_dgesvd_(ju, jv, m, n, a, lda, s, u, ldu, vt, ldvt, w, lw, info, l1, l2); }
}
#endif
