#include "heap.hpp"
#include "core.hpp"
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include <exception>
#include <new>
#include <dlfcn.h>
#include <execinfo.h>
#include <link.h>
#include <sys/mman.h>
#include <sanitizer/allocator_interface.h>
#include <sanitizer/asan_interface.h>

namespace sim { namespace heap {

// All bookkeeping lives in an anonymous mapping, outside the leak scan's roots.
struct Blk { void *p; uint32_t size; uint32_t seq; };
constexpr size_t kTab = 1u << 18;
constexpr size_t kPB = 1u << 17;
struct State {
    int depth;           // >0: inside library call (and not harness)
    bool inHook;
    Plan plan; uint64_t count, fired, budget, seq, live;
    PairPlan pplan; uint64_t pcount, pfired;
    struct PB { void *p; int pair; bool live; } *pb; size_t npb; size_t plive[kPairs]; uint64_t pallocs[kPairs];     // pb: every address the memory functions ever returned
    Blk *tab;
};
static State *S;
static State *st() { if (!S) { S = (State *)mmap(nullptr, sizeof(State), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    S->pb = (State::PB *)mmap(nullptr, sizeof(State::PB) * kPB, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    S->tab = (Blk *)mmap(nullptr, sizeof(Blk) * kTab, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); } return S; }

static inline size_t hashp(void *p) { uint64_t x = (uint64_t)p >> 4; x *= 0x9e3779b97f4a7c15ull; return x >> (64 - 18); }
static State::PB *pairSlot(void *p) { size_t i = hashp(p) & (kPB - 1); while (st()->pb[i].p && st()->pb[i].p != p) i = (i + 1) & (kPB - 1); return &st()->pb[i]; }
static void add(void *p, size_t n) {
    State *s = st(); if (!p || s->live * 2 > kTab) return; size_t i = hashp(p);
    while (s->tab[i].p) { i = (i + 1) & (kTab - 1); }
    s->tab[i] = {p, (uint32_t)n, (uint32_t)s->seq}; s->live++;
}
static void del(void *p) {
    State *s = st(); if (!p) return; size_t i = hashp(p);
    while (s->tab[i].p && s->tab[i].p != p) i = (i + 1) & (kTab - 1);
    if (!s->tab[i].p) return;
    s->live--;
    for (size_t j = i;;) {     // close the gap
        s->tab[i].p = nullptr;
        for (;;) { j = (j + 1) & (kTab - 1); if (!s->tab[j].p) return; size_t h = hashp(s->tab[j].p); if (i <= j ? h <= i || h > j : h <= i && h > j) break; }
        s->tab[i] = s->tab[j]; i = j;
    }
}
static void mhook(const volatile void *p, size_t n) { State *s = st(); if (s->depth > 0) { s->seq++; add((void *)p, n); } }
static void fhook(const volatile void *p) { del((void *)p); }
static void install() { static bool done; if (!done) { done = true; __sanitizer_install_malloc_and_free_hooks(mhook, fhook); } }

LibCall::LibCall() { st()->depth++; }
LibCall::~LibCall() { st()->depth--; }
Harness::Harness() { saved = st()->depth; st()->depth = 0; }
Harness::~Harness() { st()->depth = saved; }

void arm(const Plan &p) { st()->plan = p; st()->plan.on = true; st()->count = 0; st()->fired = 0; }
void disarm() { st()->plan.on = false; }
uint64_t allocCount() { return st()->count; }
void resetCount() { st()->count = 0; }
uint64_t firedCount() { return st()->fired; }
void setBudget(uint64_t n) { st()->budget = n; }
void ledgerReset() { install(); State *s = st(); madvise(s->tab, sizeof(Blk) * kTab, MADV_DONTNEED); s->live = 0; s->seq = 0; }
size_t liveTracked() { return st()->live; }

// nlohmann::json allocates in its destructor and cannot survive a failure there.  That is a limit of
// that library, not of the code under test: such an allocation never fails.
static bool insideForeignDestructor() {
    void *f[48]; int n = backtrace(f, 48);
    static struct { void *a; bool v; } memo[4096];
    for (int i = 0; i < n; i++) {
        auto &m = memo[((uintptr_t)f[i] >> 2) & 4095];
        if (m.a != f[i]) { Dl_info d; m.a = f[i]; m.v = dladdr(f[i], &d) && d.dli_sname && strstr(d.dli_sname, "nlohmann") && strstr(d.dli_sname, "json_value7destroy"); }
        if (m.v) return true;
    }
    return false;
}

// true: this allocation must fail
static bool countAndDecide(State *s) {
    uint64_t k = s->count++;
    if (s->budget && k > s->budget) { s->depth = 0; violation("no-progress", fmt("more than %llu allocations inside one library call", (unsigned long long)s->budget)); }
    if (!s->plan.on) return false;
    bool f = k >= s->plan.from && k - s->plan.from < s->plan.count;
    if (s->plan.permille && mix(s->plan.from * 77 + 5, k) % 1000 < s->plan.permille) f = true;
    if (f) { int d = s->depth; s->depth = 0; if (insideForeignDestructor()) f = false; s->depth = d; }
    if (f) s->fired++;
    return f;
}

// ---- conservative reachability from writable static data of all loaded modules
static size_t g_marked;
__attribute__((no_sanitize("address"), noinline)) static uintptr_t peek(uintptr_t p) { return *(volatile uintptr_t *)p; }
static void scanRange(uintptr_t a, uintptr_t b, std::string *, uint32_t *marks) {
    State *s = st();
    // explicit stack in a mapping
    static void **stack = (void **)mmap(nullptr, sizeof(void *) * kTab, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    size_t sp = 0;
    auto look = [&](uintptr_t v) {
        if (v < 4096) return;
        size_t i = hashp((void *)v);
        while (s->tab[i].p) { if (s->tab[i].p == (void *)v) { if (!marks[i]) { marks[i] = 1; g_marked++; stack[sp++] = (void *)(uintptr_t)i; } return; } i = (i + 1) & (kTab - 1); }
    };
    for (uintptr_t p = (a + 7) & ~7ull; p + 8 <= b; p += 8) look(peek(p));
    while (sp) { size_t i = (size_t)(uintptr_t)stack[--sp]; uintptr_t q = (uintptr_t)s->tab[i].p; for (uintptr_t p = q; p + 8 <= q + s->tab[i].size; p += 8) { if (__asan_address_is_poisoned((void *)p)) continue; look(peek(p)); } }
}
struct It { uint32_t *marks; };
__attribute__((no_sanitize("address"))) static int phdrCb(struct dl_phdr_info *i, size_t, void *d) {
    for (int k = 0; k < i->dlpi_phnum; k++) {
        auto &h = i->dlpi_phdr[k];
        if (h.p_type == PT_LOAD && (h.p_flags & PF_W)) {
            uintptr_t a = i->dlpi_addr + h.p_vaddr, b = a + h.p_memsz;
            extern void scanNoAsan(uintptr_t, uintptr_t, uint32_t *); scanNoAsan(a, b, ((It *)d)->marks);
        }
    }
    return 0;
}
__attribute__((no_sanitize("address"))) void scanNoAsan(uintptr_t a, uintptr_t b, uint32_t *m) { scanRange(a, b, nullptr, m); }

std::string leakReport(size_t &n) {
    Harness h; State *s = st(); n = 0; std::string out;
    if (s->live == 0) return out;
    uint32_t *marks = (uint32_t *)mmap(nullptr, sizeof(uint32_t) * kTab, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    It it{marks}; dl_iterate_phdr(phdrCb, &it);
    for (size_t i = 0; i < kTab; i++) if (s->tab[i].p && !marks[i]) { n++; if (n <= 8) out += fmt(" block of %u bytes (library allocation #%u)", s->tab[i].size, s->tab[i].seq); }
    munmap(marks, sizeof(uint32_t) * kTab);
    return out;
}

// ---- custom memory functions
template <int K> static void *afn(size_t n) {
    State *s = st(); int d = s->depth; 
    if (d > 0) { uint64_t k = s->pcount++; if (s->pplan.on && k >= s->pplan.from && k - s->pplan.from < s->pplan.count) { s->pfired++; return nullptr; } }
    s->depth = 0; void *p = malloc(n); s->depth = d;
    State::PB *e = pairSlot(p); if (!e->p && ++s->npb * 4 > kPB * 3) internalError("pair table full");
    *e = {p, K, true}; s->plive[K]++; s->pallocs[K]++;
    return p;
}
template <int K> static void ffn(void *p) {
    State *s = st();
    if (!p) return;
    State::PB *e = pairSlot(p); if (e->p && e->pair == K && e->live) { e->live = false; s->plive[K]--; free(p); return; }
    s->depth = 0;
    if (e->p && e->pair == K) violation("memfn-double-free", fmt("memory function pair %d: block released twice", K));
    if (e->p && e->live) violation("memfn-foreign-free", fmt("block of memory function pair %d released through pair %d", e->pair, K));
    violation("memfn-foreign-free", fmt("memory function pair %d: released a pointer it never handed out", K));
}
AllocFn allocFn(int k) { static AllocFn f[] = {afn<0>, afn<1>, afn<2>}; return f[k]; }
FreeFn freeFn(int k) { static FreeFn f[] = {ffn<0>, ffn<1>, ffn<2>}; return f[k]; }
size_t pairLive(int k) { return st()->plive[k]; }
uint64_t pairAllocs(int k) { return st()->pallocs[k]; }
void armPair(const PairPlan &p) { st()->pplan = p; st()->pcount = 0; st()->pfired = 0; }
uint64_t pairFired() { return st()->pfired; }
uint64_t pairCount() { return st()->pcount; }
void pairReset() { State *s = st(); for (int k = 0; k < kPairs; k++) { s->plive[k] = 0; s->pallocs[k] = 0; } if (s->npb) madvise(s->pb, sizeof(State::PB) * kPB, MADV_DONTNEED); s->npb = 0; s->pplan.on = false; s->pcount = s->pfired = 0; }

static void *doNew(size_t n, bool nothrow) {
    State *s = st();
    if (s->depth > 0 && countAndDecide(s)) { if (nothrow) return nullptr; throw std::bad_alloc(); }
    void *p = malloc(n ? n : 1);
    if (!p) abort();
    return p;
}
static bool isPairBlock(void *p) {
    if (!st()->npb) return false; State::PB *e = pairSlot(p); return e->p && e->live;
}
static void doDelete(void *p) {
    if (!p) return;
    State *s = st();
    if ((s->plive[0] || s->plive[1] || s->plive[2]) && isPairBlock(p)) { s->depth = 0; violation("memfn-bypassed", "block obtained from the schema's memory function was released with operator delete"); }
    free(p);
}
}} // namespace

using namespace sim::heap;
void *operator new(size_t n) { return doNew(n, false); }
void *operator new[](size_t n) { return doNew(n, false); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return doNew(n, true); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return doNew(n, true); }
void operator delete(void *p) noexcept { doDelete(p); }
void operator delete[](void *p) noexcept { doDelete(p); }
void operator delete(void *p, size_t) noexcept { doDelete(p); }
void operator delete[](void *p, size_t) noexcept { doDelete(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { doDelete(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { doDelete(p); }

extern "C" const char *__asan_default_options() {
    return "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:detect_stack_use_after_return=0:handle_abort=0:handle_sigfpe=1:print_summary=0:symbolize=1:fast_unwind_on_malloc=1:malloc_context_size=6:max_free_fill_size=1024:free_fill_byte=221:max_malloc_fill_size=1024:malloc_fill_byte=190:quarantine_size_mb=8:detect_odr_violation=0:use_sigaltstack=1";
}

extern "C" void __sanitizer_print_stack_trace(void);
namespace { struct TermInit { TermInit() { void *b[2]; backtrace(b, 2); std::set_terminate([] {
    sim::heap::Harness h;
    if (auto e = std::current_exception()) { try { std::rethrow_exception(e); } catch (const std::exception &x) { fprintf(stderr, "terminate called: %s\n", x.what()); } catch (...) { fprintf(stderr, "terminate called\n"); } }
    else fprintf(stderr, "terminate called\n");
    __sanitizer_print_stack_trace(); abort(); }); } } termInit; }
