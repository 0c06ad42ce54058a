// Heap seam of the environment simulation: placement, content and reuse of every C++ allocation are decided by the
// environment in force; nothing fails here.
#include "heap.hpp"
#include "heap_env.hpp"
#include "core.hpp"
#include <cstdlib>
#include <cstring>
#include <new>
#include <sys/mman.h>
namespace sim { namespace heap {
static int depth;
static Layout L;
static char *base; static size_t pos; static const size_t kArena = 1ull << 30;
static uint64_t rng = 1;
struct Hdr { uint32_t size, cls; Hdr *next; };            // 16 bytes in front of every block
static Hdr *freeList[64];
LibCall::LibCall() { depth++; }
LibCall::~LibCall() { depth--; }
Harness::Harness() { saved = depth; depth = 0; }
Harness::~Harness() { depth = saved; }
bool inLibrary() { return depth > 0; }
std::string leakReport(size_t &n) { n = 0; return ""; }
void setLayout(const Layout &l) {
    L = l; rng = l.seed | 1; memset(freeList, 0, sizeof freeList);
    if (!l.arena) return;
    void *hint = (void *)(0x100000000000ull + ((l.seed * 0x9e3779b97f4a7c15ull) >> 20 << 12) % 0x300000000000ull);
    base = (char *)mmap(hint, kArena, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (base == (char *)MAP_FAILED) internalError("arena");
    pos = l.down ? kArena : 0;
}
static uint32_t rnd(uint32_t n) { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return (uint32_t)(rng >> 11) % n; }
static void *get(size_t n) {
    if (n > 1u << 28) abort();
    size_t need = (n + 15) / 16 * 16 + 16; uint32_t cls = need / 16 < 63 ? (uint32_t)(need / 16) : 63;
    Hdr *h = nullptr;
    if (L.arena && L.reuse && cls < 63 && freeList[cls]) { h = freeList[cls]; freeList[cls] = h->next; }
    else if (L.arena) {
        size_t padding = L.pad ? 16 * (size_t)rnd(L.pad) : 0;
        if (L.down) { if (pos < need + padding) internalError("arena full"); pos -= need + padding; h = (Hdr *)(base + pos); }
        else { if (pos + need + padding > kArena) internalError("arena full"); h = (Hdr *)(base + pos + padding); pos += need + padding; }
    } else { h = (Hdr *)malloc(need); if (!h) abort(); }
    h->size = (uint32_t)n; h->cls = L.arena ? cls : 1000;
    void *p = (char *)h + 16;
    if (L.fill >= 0) memset(p, L.fill, n);
    return p;
}
static void put(void *p) {
    if (!p) return;
    Hdr *h = (Hdr *)((char *)p - 16);
    if (L.fill >= 0) memset(p, L.fill ^ 0xff, h->size);
    if (h->cls == 1000) { free(h); return; }
    if (h->cls < 63 && base && (char *)h >= base && (char *)h < base + kArena) { h->next = freeList[h->cls]; freeList[h->cls] = h; }
}
}}
using namespace sim::heap;
void *operator new(size_t n) { return get(n); }
void *operator new[](size_t n) { return get(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return get(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return get(n); }
void operator delete(void *p) noexcept { put(p); }
void operator delete[](void *p) noexcept { put(p); }
void operator delete(void *p, size_t) noexcept { put(p); }
void operator delete[](void *p, size_t) noexcept { put(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { put(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { put(p); }
