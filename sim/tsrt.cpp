// Runtime behind -fsanitize=thread instrumentation: not the sanitizer's own
// library but a deterministic scheduler, a vector-clock race detector, a heap
// that never reuses memory while threads run, and replacements for the locks.
// This file is compiled without instrumentation.
#include "mt.hpp"
#include "core.hpp"
#include "heap.hpp"
#include <cerrno>
#include <climits>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <dlfcn.h>
#include <execinfo.h>
#include <exception>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

extern "C" char __data_start, _end, __executable_start;

namespace {
constexpr int kT = 5;                                   // thread 0 is the one that prepares and checks
constexpr uintptr_t kArena = 0x100000000000ull;
constexpr size_t kSub = 1ull << 28, kAll = kSub * kT;
enum Kind : uint8_t { kRead = 0, kWrite = 1, kARead = 2, kAWrite = 3 };   // bit 0: write, bit 1: atomic
struct Rec { uint32_t clk, pc; uint8_t mask, tid, kind, used; };
constexpr int kRecs = 8;
struct Cell { Rec r[kRecs]; };
struct VC { uint32_t c[kT]; void join(const VC &o) { for (int i = 0; i < kT; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
struct Thr {
    int id; volatile int futex; int state; const void *waitOn; VC vc, acqPending, relFence; bool hasRel;
    uint32_t *stk; int sp; int64_t budget; int off; int depth; sim::heap::Plan plan; uint64_t count, fired;
    const std::function<void()> *body; pthread_t th; uint64_t sinceSwitch; uint32_t lastPc;
};
enum { kRunnable, kBlocked, kDone };
struct Sync { const void *addr; VC vc; int owner, depth, readers[kT]; int relTid; int once; };
constexpr int kSyncs = 1 << 15;
struct Sw { uint8_t from, to, why; uint32_t pc, topc; };
constexpr int kSw = 64;

bool g_run = false;
uint8_t *g_state = nullptr;                              // per 8 bytes: 0 not allocated, 1..8 valid bytes, 0xfd released
Cell *g_shadow = nullptr, *g_dshadow = nullptr;
uintptr_t g_dlo, g_dhi;
uintptr_t g_bump[kT];
Thr g_thr[kT]; int g_n = 0;
volatile int g_mainFutex = 0, g_exitFutex[kT];
__thread Thr *self = nullptr;
Sync *g_sync = nullptr;
unsigned g_mode, g_hotPermille, g_hotLeft, g_swLeft;
sim::mt::Stats g_st;
Sw g_sw[kSw]; uint64_t g_nsw;
uint64_t g_maxPoints = 60u << 20;

[[noreturn]] void oom() { sim::R->status = sim::kOk; sim::R->nontrivial = 0; _exit(0); }

// ------------------------------------------------------------------ heap
struct Hdr { uint64_t size; uint32_t cls, magic; };
struct FreeBlk { FreeBlk *next; };
FreeBlk *g_free[64];
void mapAll() {
    auto m = [](uintptr_t at, size_t n) { void *p = mmap((void *)at, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (at ? MAP_FIXED_NOREPLACE : 0), -1, 0);
        if (p == MAP_FAILED) { static const char e[] = "arena mapping failed\n"; if (write(2, e, sizeof e - 1)) {} _exit(2); } return p; };
    m(kArena, kAll);
    g_state = (uint8_t *)m(kArena + 0x010000000000ull, kAll / 8);
    g_shadow = (Cell *)m(kArena + 0x020000000000ull, kAll / 8 * sizeof(Cell));
    g_dlo = (uintptr_t)&__data_start & ~7ull; g_dhi = ((uintptr_t)&_end + 7) & ~7ull;
    g_dshadow = (Cell *)m(kArena + 0x080000000000ull, (g_dhi - g_dlo) / 8 * sizeof(Cell));
    g_sync = (Sync *)m(kArena + 0x090000000000ull, sizeof(Sync) * kSyncs);
    for (int i = 0; i < kT; i++) g_bump[i] = kArena + kSub * i + 64;
}
int clsOf(size_t n) {   // 16-byte classes, then powers of two; index into g_free
    if (n <= 512) return (int)((n + 15) / 16);
    int k = 33; size_t s = 1024; while (s < n) { s *= 2; k++; } return k;
}
size_t clsSize(int k) { return k <= 32 ? (size_t)k * 16 : (size_t)1024 << (k - 33); }
void setState(uintptr_t p, size_t n, bool live) {
    uint8_t *s = g_state + (p - kArena) / 8; size_t full = n / 8;
    if (!live) { memset(s, 0xfd, (n + 7) / 8); return; }
    memset(s, 8, full); if (n & 7) s[full] = n & 7;
}
void *allocate(size_t n, size_t align = 16) {
    if (!g_state) mapAll();
    if (n == 0) n = 1;
    int id = g_run && self ? self->id : 0;
    int k = clsOf(n); size_t sz = clsSize(k);
    if (sz > kSub / 4) return nullptr;
    uintptr_t p;
    if (!g_run && align <= 16 && g_free[k]) { p = (uintptr_t)g_free[k]; g_free[k] = g_free[k]->next; }
    else {
        uintptr_t b = g_bump[id]; p = (b + sizeof(Hdr) + align - 1) & ~(align - 1);
        if (p + sz + 16 > kArena + kSub * (id + 1)) { if (g_run) oom(); return nullptr; }
        g_bump[id] = (p + sz + 15) & ~15ull;
    }
    Hdr *h = (Hdr *)(p - sizeof(Hdr)); h->size = n; h->cls = k; h->magic = 0x51A110Cu;
    setState(p, n, true);
    if (g_run) memset((void *)p, 0xbe, n);      // uninitialised content is deterministic and odd
    return (void *)p;
}
inline bool inArena(uintptr_t a) { return a - kArena < kAll; }
void report(const char *cls, const char *what, uintptr_t a, uintptr_t pc, const Rec *other);
void access(uintptr_t a, unsigned n, unsigned kind, uintptr_t pc);
void release(void *v, uintptr_t pc) {
    if (!v) return;
    uintptr_t p = (uintptr_t)v;
    if (!inArena(p)) return;                    // early allocations of the dynamic linker
    Hdr *h = (Hdr *)(p - sizeof(Hdr)); uint8_t st = g_state[(p - kArena) / 8];
    if (st == 0xfd || h->magic != 0x51A110Cu) { if (self || sim::R) report("double-free", "memory released twice", p, pc, nullptr); return; }
    if (g_run && self && !self->off) { size_t n = h->size; for (size_t i = 0; i < n; i += 8) { unsigned m = (unsigned)(n - i < 8 ? n - i : 8); if (m == 3) m = 2; else if (m > 4 && m < 8) m = 4; access(p + i, m, kWrite, pc); } }
    setState(p, h->size, false);
    if (!g_run && h->cls < 64) { FreeBlk *f = (FreeBlk *)p; f->next = g_free[h->cls]; g_free[h->cls] = f; }
}

// ------------------------------------------------------------------ reports
std::string symb(uint32_t off) {
    if (!off) return "?";
    Dl_info d; uintptr_t a = (uintptr_t)&__executable_start + off;
    if (!dladdr((void *)a, &d) || !d.dli_sname) return sim::fmt("+0x%x", off);
    int st = 0; char *dm = abi::__cxa_demangle(d.dli_sname, nullptr, nullptr, &st);
    std::string s = dm ? dm : d.dli_sname; free(dm);
    if (s.size() > 150) s = s.substr(0, 147) + "...";
    return s + sim::fmt(" (+0x%x)", off);
}
std::string stackOf(Thr *t, int max) {
    std::string s; for (int i = t->sp - 1; i >= 0 && max > 0; i--, max--) s += "\n      in " + symb(t->stk[i]); return s;
}
void noteSchedule() {
    uint64_t n = g_nsw < kSw ? g_nsw : kSw;
    sim::note("last %llu of %llu switches:", (unsigned long long)n, (unsigned long long)g_nsw);
    for (uint64_t i = g_nsw - n; i < g_nsw; i++) { Sw &w = g_sw[i % kSw]; static const char *why[] = {"preempted", "preempted at a synchronisation", "blocked", "ended"};
        sim::note("  thread %d %s in %s; thread %d continues in %s", w.from, why[w.why], symb(w.pc).c_str(), w.to, symb(w.topc).c_str()); }
}
void report(const char *cls, const char *what, uintptr_t a, uintptr_t pc, const Rec *o) {
    Thr *t = self; if (t) t->off++;
    g_run = false;
    std::string d = sim::fmt("%s at %s 0x%llx by thread %d in %s", what, inArena(a) ? "heap address" : "address", (unsigned long long)a, t ? t->id : 0, symb((uint32_t)(pc - (uintptr_t)&__executable_start)).c_str());
    if (t) d += stackOf(t, 10);
    if (o) d += sim::fmt("\n   %s by thread %d in %s", o->kind & 1 ? "earlier write" : "earlier read", o->tid, symb(o->pc).c_str());
    noteSchedule();
    sim::violation(cls, d);
}

// ------------------------------------------------------------------ scheduler
void fwait(volatile int *f, int v) { while (*f == v) syscall(SYS_futex, f, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
void fwake(volatile int *f, int v) { *f = v; __sync_synchronize(); syscall(SYS_futex, f, FUTEX_WAKE_PRIVATE, INT_MAX, nullptr, nullptr, 0); }
void newBudget(Thr *t) {
    static const uint32_t scale[] = {1, 9, 65, 1025, 16385};
    t->budget = INT64_MAX;
    if (g_mode && g_swLeft) { uint32_t v = sim::choose(scale[g_mode]); if (v) t->budget = v; }
}
void goTo(Thr *n, int why) {   // hand the baton over and wait until it comes back
    Thr *me = self;
    Sw &w = g_sw[g_nsw++ % kSw]; w.from = (uint8_t)me->id; w.to = (uint8_t)n->id; w.why = (uint8_t)why; w.pc = me->lastPc; w.topc = n->lastPc;
    g_st.schedule = sim::mix(g_st.schedule, ((uint64_t)me->lastPc << 24) ^ ((uint64_t)n->lastPc << 4) ^ (uint64_t)(me->id * 8 + n->id));
    if (why != 3) sim::sig(sim::mix(((uint64_t)me->lastPc << 32) | n->lastPc, 7));
    g_st.switches++; n->sinceSwitch = 0; newBudget(n);
    if (why == 3) { fwake(&n->futex, 1); return; }
    me->futex = 0; fwake(&n->futex, 1); fwait(&me->futex, 0);
}
Thr *other(bool mustSwitch) {  // a runnable thread other than the current one
    Thr *c[kT]; int k = 0; for (int i = 1; i <= g_n; i++) if (&g_thr[i] != self && g_thr[i].state == kRunnable) c[k++] = &g_thr[i];
    if (!k) { if (!mustSwitch) return nullptr; return nullptr; }
    return c[sim::choose((uint32_t)k)];
}
void preempt(Thr *t, int why) {
    if (!g_swLeft) { t->budget = INT64_MAX; return; }
    t->off++; g_swLeft--;
    Thr *n = other(false);
    if (n) goTo(n, why); else newBudget(t);
    t->off--;
}
void hot(Thr *t) {
    g_st.hot++;
    if (!g_hotLeft || !g_hotPermille) return;
    t->off++; g_hotLeft--; bool go = sim::chance(g_hotPermille); t->off--;
    if (go) preempt(t, 1);
}
void blockOn(const void *a) {
    Thr *t = self; t->off++; g_st.blocked++;
    t->state = kBlocked; t->waitOn = a;
    Thr *n = other(true);
    if (!n) {
        std::string d = "no thread can continue:"; g_run = false;
        for (int i = 1; i <= g_n; i++) d += sim::fmt("\n thread %d %s", i, g_thr[i].state == kDone ? "ended" : "blocked") + (g_thr[i].state == kDone ? std::string() : stackOf(&g_thr[i], 8));
        noteSchedule(); sim::violation("deadlock", d);
    }
    goTo(n, 2);
    t->off--;
}
void wakeAll(const void *a) { for (int i = 1; i <= g_n; i++) if (g_thr[i].state == kBlocked && g_thr[i].waitOn == a) { g_thr[i].state = kRunnable; g_thr[i].waitOn = nullptr; } }
void progress(Thr *t) {
    if (++g_st.points > g_maxPoints) { g_run = false; t->off++; noteSchedule(); sim::violation("no-progress", "threads did not end within the bound on simulated steps" + stackOf(t, 10)); }
    if (++t->sinceSwitch > (1u << 20)) { t->sinceSwitch = 0; unsigned s = g_swLeft; if (!s) g_swLeft = 1; preempt(t, 0); if (!s) g_swLeft = 0; }
}

// ------------------------------------------------------------------ race detector
inline void cellCheck(Thr *t, Cell *c, uintptr_t base, uint8_t mask, unsigned kind, uintptr_t pc) {
    uint32_t off = (uint32_t)(pc - (uintptr_t)&__executable_start), clk = t->vc.c[t->id];
    Rec *slot = nullptr;
    for (int i = 0; i < kRecs; i++) {
        Rec &r = c->r[i];
        if (!r.used) { if (!slot) slot = &r; break; }
        if (r.tid == t->id) {
            if (r.clk == clk && r.kind == kind) { r.mask |= mask; r.pc = off; slot = (Rec *)1; }
            else if (!slot && (r.mask & ~mask) == 0 && ((kind & 1) || !(r.kind & 1)) && (!(kind & 2) || (r.kind & 2))) slot = &r;   // covered by the new one
            continue;
        }
        if (!(r.mask & mask)) continue;
        if (!((r.kind | kind) & 1)) continue;                 // two reads
        if ((r.kind & 2) && (kind & 2)) continue;             // two atomics
        if (r.clk <= t->vc.c[r.tid]) continue;                // ordered
        Rec o = r; report("data-race", kind & 1 ? "unsynchronised write" : "unsynchronised read", base, pc, &o);
    }
    if (slot == (Rec *)1) return;
    if (!slot) slot = &c->r[(clk + off) % kRecs];
    slot->clk = clk; slot->pc = off; slot->mask = mask; slot->tid = (uint8_t)t->id; slot->kind = (uint8_t)kind; slot->used = 1;
}
inline Cell *cellOf(uintptr_t g) {
    if (inArena(g)) return g_shadow + (g - kArena) / 8;
    return g_dshadow + (g - g_dlo) / 8;
}
void access(uintptr_t a, unsigned n, unsigned kind, uintptr_t pc) {
    Thr *t = self;
    if (!t || t->off) return;
    bool ar = inArena(a);
    if (!ar && !(a >= g_dlo && a < g_dhi)) return;
    t->lastPc = (uint32_t)(pc - (uintptr_t)&__executable_start);
    bool own = ar && (a - kArena) / kSub == (size_t)t->id;
    if (!own) {
        progress(t);
        if (kind & 3) hot(t);
        if (--t->budget <= 0) preempt(t, 0);
    } else if (++t->sinceSwitch > (1u << 22)) { t->sinceSwitch = 0; g_st.points += 1u << 18; progress(t); }
    for (uintptr_t g = a & ~7ull; g < a + n; g += 8) {
        unsigned lo = g < a ? (unsigned)(a - g) : 0, hi = g + 8 > a + n ? (unsigned)(a + n - g) : 8;
        uint8_t mask = (uint8_t)(((1u << hi) - 1) & ~((1u << lo) - 1));
        if (ar) {
            uint8_t st = g_state[(g - kArena) / 8];
            if (st == 0xfd) { Rec o{}; Cell *c = cellOf(g); bool have = false; for (auto &r : c->r) if (r.used && (r.kind & 1)) { o = r; have = true; } report("use-after-free", kind & 1 ? "write to released memory" : "read of released memory", g + lo, pc, have ? &o : nullptr); }
            if (st < hi) report("out-of-bounds", kind & 1 ? "write outside of any block" : "read outside of any block", g + lo, pc, nullptr);
        }
        cellCheck(t, cellOf(g), g + lo, mask, kind, pc);
    }
}
#define PC ((uintptr_t)__builtin_return_address(0))
#define ACC(p, n, k) do { if (__builtin_expect(g_run, 0)) access((uintptr_t)(p), (unsigned)(n), k, PC); } while (0)
void rangeAcc(uintptr_t a, size_t n, unsigned k, uintptr_t pc) { while (n) { unsigned m = (unsigned)(8 - (a & 7)); if (m > n) m = (unsigned)n; access(a, m, k, pc); a += m; n -= m; } }
#define RANGE(p, n, k) do { if (__builtin_expect(g_run, 0)) rangeAcc((uintptr_t)(p), (n), k, PC); } while (0)

// ------------------------------------------------------------------ synchronisation objects
Sync *syncOf(const void *a) {
    if (!g_state) mapAll();
    size_t i = (((uintptr_t)a >> 2) * 0x9e3779b97f4a7c15ull) >> (64 - 15);
    while (g_sync[i].addr && g_sync[i].addr != a) i = (i + 1) & (kSyncs - 1);
    if (!g_sync[i].addr) { static int used = 0; if (++used > kSyncs / 4 * 3) oom(); }
    g_sync[i].addr = a; return &g_sync[i];
}
inline bool live() { return g_run && self && !self->off; }
void acq(Thr *t, Sync *s) { t->vc.join(s->vc); }
void rel(Thr *t, Sync *s) { s->vc.join(t->vc); t->vc.c[t->id]++; }
void syncPoint(uintptr_t pc) { Thr *t = self; if (pc >= (uintptr_t)&__executable_start && pc < (uintptr_t)&_end) t->lastPc = (uint32_t)(pc - (uintptr_t)&__executable_start); progress(t); hot(t); }

// atomics
bool isAcq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
bool isRel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
void atomicOp(const volatile void *p, unsigned n, bool rd, bool wr, int mo, uintptr_t pc) {
    Thr *t = self; if (!g_run || !t || t->off) return;
    g_st.atomics++;
    if (!inArena((uintptr_t)p) && !((uintptr_t)p >= g_dlo && (uintptr_t)p < g_dhi)) return;
    access((uintptr_t)p, n, wr ? kAWrite : kARead, pc);
    Sync *s = syncOf((const void *)p);
    if (rd) { if (isAcq(mo)) t->vc.join(s->vc); else t->acqPending.join(s->vc); }
    if (wr) {
        if (isRel(mo)) { if (!rd) s->vc = t->vc; else s->vc.join(t->vc); s->relTid = t->id; t->vc.c[t->id]++; }
        else if (t->hasRel) { if (!rd) s->vc = t->relFence; else s->vc.join(t->relFence); s->relTid = t->id; }
        else if (!rd && s->relTid != t->id) memset(&s->vc, 0, sizeof s->vc);
    }
}
} // namespace

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *pc) { Thr *t = self; if (t) { if (t->sp < 60000) t->stk[t->sp] = (uint32_t)((uintptr_t)PC - (uintptr_t)&__executable_start); t->sp++; } (void)pc; }
void __tsan_func_exit() { Thr *t = self; if (t && t->sp > 0) t->sp--; }
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n) \
    void __tsan_read##n(void *p) { ACC(p, n, kRead); } \
    void __tsan_write##n(void *p) { ACC(p, n, kWrite); } \
    void __tsan_volatile_read##n(void *p) { ACC(p, n, kRead); } \
    void __tsan_volatile_write##n(void *p) { ACC(p, n, kWrite); } \
    void __tsan_unaligned_volatile_read##n(void *p) { ACC(p, n, kRead); } \
    void __tsan_unaligned_volatile_write##n(void *p) { ACC(p, n, kWrite); } \
    void __tsan_read_write##n(void *p) { ACC(p, n, kWrite); } \
    void __tsan_unaligned_read_write##n(void *p) { ACC(p, n, kWrite); } \
    void __tsan_unaligned_read##n(void *p) { ACC(p, n, kRead); } \
    void __tsan_unaligned_write##n(void *p) { ACC(p, n, kWrite); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { RANGE(p, n, kRead); }
void __tsan_write_range(void *p, unsigned long n) { RANGE(p, n, kWrite); }
void __tsan_vptr_read(void **p) { ACC(p, 8, kRead); }
void __tsan_vptr_update(void **p, void *v) { if (*p != v) ACC(p, 8, kWrite); else ACC(p, 8, kRead); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { RANGE(s, n, kRead); RANGE(d, n, kWrite); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { RANGE(s, n, kRead); RANGE(d, n, kWrite); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { RANGE(d, n, kWrite); return memset(d, c, n); }

void *__real_memcpy(void *, const void *, size_t); void *__real_memmove(void *, const void *, size_t); void *__real_memset(void *, int, size_t);
int __real_memcmp(const void *, const void *, size_t); void *__real_memchr(const void *, int, size_t); size_t __real_strlen(const char *);
void *__wrap_memcpy(void *d, const void *s, size_t n) { RANGE(s, n, kRead); RANGE(d, n, kWrite); return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { RANGE(s, n, kRead); RANGE(d, n, kWrite); return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { RANGE(d, n, kWrite); return __real_memset(d, c, n); }
int __wrap_memcmp(const void *a, const void *b, size_t n) { RANGE(a, n, kRead); RANGE(b, n, kRead); return __real_memcmp(a, b, n); }
void *__wrap_memchr(const void *a, int c, size_t n) { void *r = __real_memchr(a, c, n); RANGE(a, r ? (size_t)((char *)r - (char *)a) + 1 : n, kRead); return r; }
size_t __wrap_strlen(const char *a) { size_t n = __real_strlen(a); RANGE(a, n + 1, kRead); return n; }
// functions of the C library that keep state of the process: the state is modelled by memory the detector sees
static struct tm s_tm; static char s_asc[64], s_err[128]; static char *s_tok; static uint64_t s_locale, s_env, s_seed;
char *__real_setlocale(int, const char *); struct lconv *__real_localeconv(void); char *__real_getenv(const char *); int __real_setenv(const char *, const char *, int); int __real_unsetenv(const char *); int __real_putenv(char *);
void *__real__ZNSt6locale6globalERKS_(void *, const void *);
struct tm *__wrap_gmtime(const time_t *t) { RANGE(t, sizeof *t, kRead); RANGE(&s_tm, sizeof s_tm, kWrite); return gmtime_r(t, &s_tm); }
struct tm *__wrap_localtime(const time_t *t) { RANGE(t, sizeof *t, kRead); RANGE(&s_tm, sizeof s_tm, kWrite); return localtime_r(t, &s_tm); }
char *__wrap_asctime(const struct tm *t) { RANGE(t, sizeof *t, kRead); RANGE(s_asc, sizeof s_asc, kWrite); return asctime_r(t, s_asc); }
char *__wrap_ctime(const time_t *t) { RANGE(t, sizeof *t, kRead); RANGE(&s_tm, sizeof s_tm, kWrite); RANGE(s_asc, sizeof s_asc, kWrite); return ctime_r(t, s_asc); }
char *__wrap_strtok(char *s, const char *d) { RANGE(&s_tok, sizeof s_tok, s ? kWrite : kRead); RANGE(&s_tok, sizeof s_tok, kWrite); return strtok_r(s, d, &s_tok); }
char *__wrap_setlocale(int c, const char *n) { RANGE(&s_locale, sizeof s_locale, n ? kWrite : kRead); return __real_setlocale(c, n); }
struct lconv *__wrap_localeconv(void) { RANGE(&s_locale, sizeof s_locale, kWrite); return __real_localeconv(); }
void *__wrap__ZNSt6locale6globalERKS_(void *r, const void *l) { RANGE(&s_locale, sizeof s_locale, kWrite); return __real__ZNSt6locale6globalERKS_(r, l); }
char *__wrap_strerror(int e) { RANGE(s_err, sizeof s_err, kWrite); snprintf(s_err, sizeof s_err, "error %d", e); return s_err; }
int __wrap_rand(void) { RANGE(&s_seed, sizeof s_seed, kWrite); s_seed = s_seed * 6364136223846793005ull + 1442695040888963407ull; return (int)(s_seed >> 33); }
void __wrap_srand(unsigned s) { RANGE(&s_seed, sizeof s_seed, kWrite); s_seed = s; }
char *__wrap_getenv(const char *n) { RANGE(&s_env, sizeof s_env, kRead); return __real_getenv(n); }
int __wrap_setenv(const char *n, const char *v, int o) { RANGE(&s_env, sizeof s_env, kWrite); return __real_setenv(n, v, o); }
int __wrap_unsetenv(const char *n) { RANGE(&s_env, sizeof s_env, kWrite); return __real_unsetenv(n); }
int __wrap_putenv(char *s) { RANGE(&s_env, sizeof s_env, kWrite); return __real_putenv(s); }

#define ATOM(N, T) \
    T __tsan_atomic##N##_load(const volatile T *p, int mo) { atomicOp(p, sizeof(T), true, false, mo, PC); return *p; } \
    void __tsan_atomic##N##_store(volatile T *p, T v, int mo) { atomicOp(p, sizeof(T), false, true, mo, PC); *p = v; } \
    T __tsan_atomic##N##_exchange(volatile T *p, T v, int mo) { atomicOp(p, sizeof(T), true, true, mo, PC); T o = *p; *p = v; return o; } \
    T __tsan_atomic##N##_fetch_add(volatile T *p, T v, int mo) { atomicOp(p, sizeof(T), true, true, mo, PC); T o = *p; *p = o + v; return o; } \
    T __tsan_atomic##N##_fetch_sub(volatile T *p, T v, int mo) { atomicOp(p, sizeof(T), true, true, mo, PC); T o = *p; *p = o - v; return o; } \
    T __tsan_atomic##N##_fetch_and(volatile T *p, T v, int mo) { atomicOp(p, sizeof(T), true, true, mo, PC); T o = *p; *p = o & v; return o; } \
    T __tsan_atomic##N##_fetch_or(volatile T *p, T v, int mo) { atomicOp(p, sizeof(T), true, true, mo, PC); T o = *p; *p = o | v; return o; } \
    T __tsan_atomic##N##_fetch_xor(volatile T *p, T v, int mo) { atomicOp(p, sizeof(T), true, true, mo, PC); T o = *p; *p = o ^ v; return o; } \
    T __tsan_atomic##N##_fetch_nand(volatile T *p, T v, int mo) { atomicOp(p, sizeof(T), true, true, mo, PC); T o = *p; *p = (T)~(o & v); return o; } \
    T __tsan_atomic##N##_compare_exchange_val(volatile T *p, T e, T v, int mo, int) { bool ok = *p == e; (void)ok; atomicOp(p, sizeof(T), true, true, mo, PC); T o = *p; if (o == e) *p = v; return o; } \
    int __tsan_atomic##N##_compare_exchange_strong(volatile T *p, T *e, T v, int mo, int) { atomicOp(p, sizeof(T), true, true, mo, PC); T o = *p; if (o == *e) { *p = v; return 1; } *e = o; return 0; } \
    int __tsan_atomic##N##_compare_exchange_weak(volatile T *p, T *e, T v, int mo, int) { atomicOp(p, sizeof(T), true, true, mo, PC); T o = *p; if (o == *e) { *p = v; return 1; } *e = o; return 0; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) {
    Thr *t = self; if (!g_run || !t || t->off) return;
    if (isAcq(mo)) t->vc.join(t->acqPending);
    if (isRel(mo)) { t->relFence = t->vc; t->hasRel = true; t->vc.c[t->id]++; }
}
void __tsan_atomic_signal_fence(int) {}

// ---- function-local statics
int sim_guard_acquire(volatile char *g) __asm__("__cxa_guard_acquire");
int sim_guard_acquire(volatile char *g) {
    Sync *s = syncOf((const void *)g);
    if (!live()) { if (*g) return 0; s->owner = -1; return 1; }
    g_st.guards++; syncPoint(PC);
    for (;;) {
        if (*g) { acq(self, s); return 0; }
        if (s->owner == 0) { acq(self, s); s->owner = self->id; return 1; }
        if (s->owner == self->id) report("recursive-init", "initialisation of a local static re-entered", (uintptr_t)g, PC, nullptr);
        blockOn((const void *)g);
    }
}
void sim_guard_release(volatile char *g) __asm__("__cxa_guard_release");
void sim_guard_release(volatile char *g) {
    Sync *s = syncOf((const void *)g);
    if (live()) { rel(self, s); s->owner = 0; *g = 1; wakeAll((const void *)g); syncPoint(PC); }
    else { s->owner = 0; *g = 1; }
}
void sim_guard_abort(volatile char *g) __asm__("__cxa_guard_abort");
void sim_guard_abort(volatile char *g) {
    Sync *s = syncOf((const void *)g); s->owner = 0;
    if (live()) { rel(self, s); wakeAll((const void *)g); }
}

// ---- locks
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) {
    memset(m, 0, sizeof *m); if (a) { int k = 0; pthread_mutexattr_gettype(a, &k); m->__data.__kind = k; }
    Sync *s = syncOf(m); s->owner = 0; s->depth = 0; memset(&s->vc, 0, sizeof s->vc); return 0;
}
int pthread_mutex_destroy(pthread_mutex_t *m) { Sync *s = syncOf(m); s->owner = s->depth = 0; return 0; }
int pthread_mutex_lock(pthread_mutex_t *m) {
    Sync *s = syncOf(m);
    if (!live()) { s->depth++; if (!s->owner) s->owner = self ? self->id : -1; return 0; }
    g_st.locks++; syncPoint(PC);
    while (s->owner) {
        if (s->owner == self->id && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) { s->depth++; return 0; }
        if (s->owner == self->id) report("deadlock", "mutex locked again by the thread that holds it", (uintptr_t)m, PC, nullptr);
        blockOn(m);
    }
    s->owner = self->id; s->depth = 1; acq(self, s); return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
    Sync *s = syncOf(m);
    if (!live()) { s->depth++; if (!s->owner) s->owner = self ? self->id : -1; return 0; }
    g_st.locks++; syncPoint(PC);
    if (s->owner == self->id && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) { s->depth++; return 0; }
    if (s->owner) return EBUSY;
    s->owner = self->id; s->depth = 1; acq(self, s); return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *) { return pthread_mutex_lock(m); }
int pthread_mutex_unlock(pthread_mutex_t *m) {
    Sync *s = syncOf(m);
    if (--s->depth > 0) return 0;
    s->depth = 0; s->owner = 0;
    if (live()) { rel(self, s); wakeAll(m); syncPoint(PC); }
    return 0;
}
static int rdWr(pthread_rwlock_t *l, bool wr, bool tryOnly, uintptr_t pc) {
    Sync *s = syncOf(l);
    int me = self ? self->id : 0;
    if (!live()) { if (wr) s->owner = me ? me : -1; else s->readers[me]++; return 0; }
    g_st.locks++; syncPoint(pc);
    for (;;) {
        bool busy = s->owner != 0; if (wr) for (int i = 0; i < kT; i++) if (s->readers[i]) busy = true;
        if (!busy) break;
        if (tryOnly) return EBUSY;
        if (s->owner == me || (wr && s->readers[me])) report("deadlock", "read-write lock locked again by the thread that holds it", (uintptr_t)l, pc, nullptr);
        blockOn(l);
    }
    if (wr) s->owner = me; else s->readers[me]++;
    acq(self, s); return 0;
}
int pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *) { memset(l, 0, sizeof *l); Sync *s = syncOf(l); s->owner = 0; memset(s->readers, 0, sizeof s->readers); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t *) { return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t *l) { return rdWr(l, false, false, PC); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { return rdWr(l, false, true, PC); }
int pthread_rwlock_wrlock(pthread_rwlock_t *l) { return rdWr(l, true, false, PC); }
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) { return rdWr(l, true, true, PC); }
int pthread_rwlock_unlock(pthread_rwlock_t *l) {
    Sync *s = syncOf(l); int me = self ? self->id : 0;
    if (s->owner) s->owner = 0; else if (s->readers[me]) s->readers[me]--;
    if (live()) { rel(self, s); wakeAll(l); syncPoint(PC); }
    return 0;
}
int pthread_once(pthread_once_t *o, void (*f)()) {
    Sync *s = syncOf(o);
    if (!live()) { if (!s->once) { s->once = 1; f(); s->once = 2; } return 0; }
    syncPoint(PC);
    for (;;) {
        if (s->once == 2) { acq(self, s); return 0; }
        if (s->once == 0) break;
        if (s->owner == self->id) report("deadlock", "call_once re-entered", (uintptr_t)o, PC, nullptr);
        blockOn(o);
    }
    s->once = 1; s->owner = self->id;
    struct Undo { Sync *s; const void *o; bool ok = false; ~Undo() { s->owner = 0; if (!ok) { s->once = 0; if (live()) wakeAll(o); } } } u{s, o};
    f(); u.ok = true; s->once = 2; if (self) rel(self, s); wakeAll(o); return 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    if (!live()) return 0;
    pthread_mutex_unlock(m); blockOn(c); return pthread_mutex_lock(m);
}
int pthread_cond_signal(pthread_cond_t *c) { if (live()) { wakeAll(c); syncPoint(PC); } return 0; }   // spurious wake-ups are allowed
int pthread_cond_broadcast(pthread_cond_t *c) { if (live()) { wakeAll(c); syncPoint(PC); } return 0; }
int sched_yield() { if (live()) { unsigned s = g_swLeft; if (!s) g_swLeft = 1; preempt(self, 1); if (!s) g_swLeft = 0; return 0; } return 0; }

// ---- malloc family
void *malloc(size_t n) { void *p = allocate(n); if (!p) errno = ENOMEM; return p; }
void free(void *p) { release(p, PC); }
void *calloc(size_t a, size_t b) { if (b && a > SIZE_MAX / b) { errno = ENOMEM; return nullptr; } void *p = allocate(a * b); if (p) memset(p, 0, a * b); return p; }
void *realloc(void *o, size_t n) {
    if (!o) return malloc(n);
    size_t old = ((Hdr *)((uintptr_t)o - sizeof(Hdr)))->size; void *p = allocate(n); if (!p) { errno = ENOMEM; return nullptr; }
    memcpy(p, o, old < n ? old : n); release(o, PC); return p;
}
void *memalign(size_t a, size_t n) { return allocate(n, a < 16 ? 16 : a); }
void *aligned_alloc(size_t a, size_t n) { return allocate(n, a < 16 ? 16 : a); }
int posix_memalign(void **o, size_t a, size_t n) { *o = allocate(n, a < 16 ? 16 : a); return *o ? 0 : ENOMEM; }
size_t malloc_usable_size(void *p) { return p ? ((Hdr *)((uintptr_t)p - sizeof(Hdr)))->size : 0; }
} // extern "C"

// ------------------------------------------------------------------ heap seam (heap.hpp) per thread
namespace sim { namespace heap {
static Thr g_mainThr;
static Thr *me() { return self ? self : &g_mainThr; }
LibCall::LibCall() { me()->depth++; }
LibCall::~LibCall() { me()->depth--; }
Harness::Harness() { saved = me()->depth; me()->depth = 0; }
Harness::~Harness() { me()->depth = saved; }
void arm(const Plan &p) { Thr *t = me(); t->plan = p; t->plan.on = true; t->count = t->fired = 0; }
void disarm() { me()->plan.on = false; }
uint64_t allocCount() { return me()->count; }
void resetCount() { me()->count = 0; }
uint64_t firedCount() { return me()->fired; }
void setBudget(uint64_t) {}
void ledgerReset() {}
size_t liveTracked() { return 0; }
std::string leakReport(size_t &n) { n = 0; return {}; }
void armPair(const PairPlan &) {}
uint64_t pairFired() { return 0; }
uint64_t pairCount() { return 0; }
void pairReset() {}
template <int K> static void *pa(size_t n) { return ::malloc(n); }
template <int K> static void pf(void *p) { ::free(p); }
AllocFn allocFn(int k) { static AllocFn f[] = {pa<0>, pa<1>, pa<2>}; return f[k]; }
FreeFn freeFn(int k) { static FreeFn f[] = {pf<0>, pf<1>, pf<2>}; return f[k]; }
size_t pairLive(int) { return 0; }
uint64_t pairAllocs(int) { return 0; }
}} // namespace

// nlohmann::json allocates in its destructor and cannot survive a failure there (see heap_asan.cpp)
static bool insideForeignDestructor(Thr *t) {
    for (int i = t->sp - 1; i >= 0; i--) {
        static struct { uint32_t off; bool v; } memo[4096];
        if (i >= 60000) continue;
        uint32_t off = t->stk[i]; auto &m = memo[(off >> 2) & 4095];
        if (m.off != off) { Dl_info d; uintptr_t a = (uintptr_t)&__executable_start + off; m.off = off; m.v = dladdr((void *)a, &d) && d.dli_sname && strstr(d.dli_sname, "nlohmann") && strstr(d.dli_sname, "json_value7destroy"); }
        if (m.v) return true;
    }
    return false;
}
static void *doNew(size_t n, bool nothrow, uintptr_t) {
    Thr *t = self;
    if (t && t->depth > 0 && t->plan.on && !t->off) {
        uint64_t k = t->count++; bool f = k >= t->plan.from && k - t->plan.from < t->plan.count;
        if (f) { t->off++; if (insideForeignDestructor(t)) f = false; t->off--; }
        if (f) { t->fired++; if (nothrow) return nullptr; throw std::bad_alloc(); }
    } else if (t && t->depth > 0) t->count++;
    void *p = allocate(n); if (!p) abort(); return p;
}
void *operator new(size_t n) { return doNew(n, false, PC); }
void *operator new[](size_t n) { return doNew(n, false, PC); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return doNew(n, true, PC); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return doNew(n, true, PC); }
void operator delete(void *p) noexcept { release(p, PC); }
void operator delete[](void *p) noexcept { release(p, PC); }
void operator delete(void *p, size_t) noexcept { release(p, PC); }
void operator delete[](void *p, size_t) noexcept { release(p, PC); }
void operator delete(void *p, const std::nothrow_t &) noexcept { release(p, PC); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { release(p, PC); }

// ------------------------------------------------------------------ running threads
namespace sim { namespace mt {
int current() { return self ? self->id : 0; }
static void *threadMain(void *v) {
    Thr *t = (Thr *)v; self = t;
    t->off = 1; fwait(&t->futex, 0); t->off = 0;
    (*t->body)();
    t->off = 1; t->state = kDone;
    // end of the thread: somebody else continues
    Thr *c[kT]; int k = 0; for (int i = 1; i <= g_n; i++) if (g_thr[i].state == kRunnable) c[k++] = &g_thr[i];
    if (k) goTo(c[choose((uint32_t)k)], 3);
    else {
        bool all = true; for (int i = 1; i <= g_n; i++) if (g_thr[i].state != kDone) all = false;
        if (!all) { g_run = false; std::string d = "no thread can continue:"; for (int i = 1; i <= g_n; i++) if (g_thr[i].state != kDone) d += fmt("\n thread %d blocked", i) + stackOf(&g_thr[i], 8); noteSchedule(); violation("deadlock", d); }
        fwake(&g_mainFutex, 1);
    }
    fwait(&g_exitFutex[t->id], 0);
    return nullptr;
}
Stats run(const std::vector<std::function<void()>> &bodies) {
    static bool done = false; if (done) internalError("mt::run called twice"); done = true;
    g_n = (int)bodies.size(); if (g_n >= kT) internalError("too many threads");
    cpu_set_t cs; int cpu = sched_getcpu(); CPU_ZERO(&cs); if (cpu >= 0) { CPU_SET(cpu, &cs); sched_setaffinity(0, sizeof cs, &cs); }
    memset(&g_st, 0, sizeof g_st); g_st.schedule = 1;
    uint32_t *stk = (uint32_t *)mmap(nullptr, (size_t)kT * 65536 * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 8u << 20);
    for (int i = 1; i <= g_n; i++) {
        Thr &t = g_thr[i]; memset((void *)&t, 0, sizeof t); t.id = i; t.stk = stk + 65536 * (size_t)i; t.state = kRunnable; t.body = &bodies[i - 1];
        t.vc.c[0] = 1; t.vc.c[i] = 1; t.budget = INT64_MAX; g_exitFutex[i] = 0; t.off = 1;
        if (pthread_create(&t.th, &at, threadMain, &t)) internalError("pthread_create");
    }
    g_mode = choose(5); static const unsigned hp[] = {0, 250, 50, 600}; g_hotPermille = hp[choose(4)]; g_hotLeft = 4000; g_swLeft = 3000;
    g_run = true; g_mainFutex = 0;
    Thr *f = &g_thr[1 + choose((uint32_t)g_n)]; newBudget(f);
    fwake(&f->futex, 1); fwait(&g_mainFutex, 0);
    g_run = false;
    for (int i = 1; i <= g_n; i++) { fwake(&g_exitFutex[i], 1); pthread_join(g_thr[i].th, nullptr); }
    steps(g_st.points);
    return g_st;
}
}} // namespace

namespace { struct TermInit { TermInit() { std::set_terminate([] {
    if (self) self->off++;
    if (auto e = std::current_exception()) { try { std::rethrow_exception(e); } catch (const std::exception &x) { fprintf(stderr, "terminate called: %s\n", x.what()); } catch (...) { fprintf(stderr, "terminate called\n"); } }
    else fprintf(stderr, "terminate called\n");
    abort(); }); } } termInit; }
