// Simulated heap: a deterministic allocator at a fixed address whose placement policy and
// failures are decided by the simulator. Replaces malloc and operator new of the process.
#include <cerrno>
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <cstdlib>
#include <new>
#include <sys/mman.h>
#include <unistd.h>

namespace simheap {

constexpr uintptr_t baseA = 0x200000000000ull; // heap of the code under test
constexpr uintptr_t baseB = 0x300000000000ull; // heap of the engine's bookkeeping
constexpr size_t reserveA = size_t(16) << 30, reserveB = size_t(16) << 30;

struct Header { uint32_t cls; uint32_t magic; uint64_t size; }; // 16 bytes before the block
constexpr uint32_t MAGIC = 0x5eed4ea9, DEAD = 0xdeadf4ee;

constexpr int nSmall = 64;           // 16..1024 in steps of 16
constexpr int nCls = nSmall + 32;    // then powers of two
struct Node { Node* next; };

struct Arena {
    uintptr_t base = 0, cur = 0, end = 0;
    Node* freeList[nCls] = {};
    size_t inUse = 0;
    size_t limit = 0;
};
Arena A, B;
bool engineHeap = false;      // bookkeeping allocations go to B
uint64_t layout = 0;          // 0: plain LIFO, otherwise placement is shuffled
uint64_t failAt = 0; int failMode = 0; bool failFired = false;
uint64_t seenNew = 0, seenMalloc = 0;
bool inNew = false;

static void init(Arena& a, uintptr_t base, size_t n)
{
    void* p = mmap((void*)base, n, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void*)base) {
        // without the fixed address, still deterministic within this process tree
        p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) { const char m[] = "sim: cannot map heap\n"; (void)!write(2, m, sizeof m - 1); _exit(99); }
    }
    a.base = a.cur = (uintptr_t)p; a.end = a.base + n; a.limit = n;
}

static uint64_t rnd()
{
    layout ^= layout << 13; layout ^= layout >> 7; layout ^= layout << 17;
    return layout;
}

static int classOf(size_t n, size_t& sz)
{
    if (n == 0) n = 1;
    if (n <= 1024) { int c = int((n + 15) / 16) - 1; sz = size_t(c + 1) * 16; return c; }
    int c = 0; size_t s = 2048;
    while (s < n) { s <<= 1; ++c; if (c >= 31) return -1; }
    sz = s; return nSmall + c;
}

static void* allocFrom(Arena& a, size_t n)
{
    size_t sz; int c = classOf(n, sz);
    if (c < 0) return nullptr;
    Node*& fl = a.freeList[c];
    const bool shuffled = (&a == &A) && layout != 0;
    if (!fl) {
        int cnt = (c < nSmall) ? (shuffled ? 16 : 4) : 1;
        size_t step = sz + 16;
        if (shuffled) a.cur += 16 * (rnd() % 64);
        if (a.cur + step * cnt > a.end || a.cur + step * cnt - a.base > a.limit) return nullptr;
        uintptr_t slots[16];
        for (int i = 0; i < cnt; ++i) slots[i] = a.cur + 16 + step * i;
        a.cur += step * cnt;
        if (shuffled) for (int i = cnt - 1; i > 0; --i) { int j = int(rnd() % (i + 1)); uintptr_t t = slots[i]; slots[i] = slots[j]; slots[j] = t; }
        for (int i = cnt - 1; i >= 0; --i) {
            Header* h = (Header*)(slots[i] - 16); h->cls = c; h->magic = DEAD;
            Node* nd = (Node*)slots[i]; nd->next = fl; fl = nd;
        }
    }
    Node* nd = fl;
    if (shuffled && nd->next && (rnd() & 3) == 0) { Node* second = nd->next; nd->next = second->next; nd = second; }
    else fl = nd->next;
    Header* h = (Header*)((uintptr_t)nd - 16);
    h->magic = MAGIC; h->size = n;
    a.inUse += sz;
    return nd;
}

static inline bool in(const Arena& a, uintptr_t p) { return a.base && p >= a.base && p < a.end; }

static bool shouldFail(int kind)
{
    if (kind == 1) ++seenNew; else ++seenMalloc;
    if (!failAt || !(failMode & kind)) return false;
    if (--failAt == 0) { failFired = true; return true; }
    return false;
}

static void* doMalloc(size_t n)
{
    if (!A.base) { init(A, baseA, reserveA); init(B, baseB, reserveB); }
    if (engineHeap) return allocFrom(B, n);
    return allocFrom(A, n);
}

static void doFree(void* p)
{
    if (!p) return;
    uintptr_t q = (uintptr_t)p;
    Arena* a = in(A, q) ? &A : in(B, q) ? &B : nullptr;
    if (!a) return;
    Header* h = (Header*)(q - 16);
    if (h->magic == 0xa119ed00u) { h = (Header*)h->size; q = (uintptr_t)h + 16; } // aligned block
    if (h->magic != MAGIC) {
        const char m[] = "sim: invalid or double free\n"; (void)!write(2, m, sizeof m - 1);
        abort();
    }
    h->magic = DEAD;
    size_t sz = h->cls < nSmall ? size_t(h->cls + 1) * 16 : size_t(2048) << (h->cls - nSmall);
    a->inUse -= sz;
    Node* nd = (Node*)q;
    nd->next = a->freeList[h->cls]; a->freeList[h->cls] = nd;
}

static size_t usable(void* p)
{
    Header* h = (Header*)((uintptr_t)p - 16);
    if (h->magic == 0xa119ed00u) { Header* o = (Header*)h->size; return o->size - ((uintptr_t)p - ((uintptr_t)o + 16)); }
    return h->size;
}

} // namespace simheap

using namespace simheap;
extern "C" {
void* malloc(size_t n)
{
    if (!inNew && !engineHeap && shouldFail(2)) { errno = ENOMEM; return nullptr; }
    void* p = doMalloc(n); if (!p) errno = ENOMEM; return p;
}
void free(void* p) { doFree(p); }
void* calloc(size_t a, size_t b)
{
    size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
    void* p = malloc(n); if (p) memset(p, 0, n); return p;
}
void* realloc(void* p, size_t n)
{
    if (!p) return malloc(n);
    if (n == 0) { free(p); return nullptr; }
    size_t old = usable(p);
    void* q = malloc(n); if (!q) return nullptr;
    memcpy(q, p, old < n ? old : n); free(p); return q;
}
void* reallocarray(void* p, size_t a, size_t b)
{
    size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
    return realloc(p, n);
}
void* memalign(size_t al, size_t n)
{
    if (al <= 16) return malloc(n);
    void* p = malloc(n + al + 16); if (!p) return nullptr;
    uintptr_t q = ((uintptr_t)p + 16 + al - 1) & ~(uintptr_t)(al - 1);
    Header* h = (Header*)(q - 16);
    Header* o = (Header*)((uintptr_t)p - 16);
    if (q != (uintptr_t)p) { h->magic = 0xa119ed00u; h->size = (uint64_t)o; }
    return (void*)q;
}
void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void** out, size_t al, size_t n) { void* p = memalign(al, n); if (!p) return ENOMEM; *out = p; return 0; }
void* valloc(size_t n) { return memalign(4096, n); }
void* pvalloc(size_t n) { return memalign(4096, (n + 4095) & ~size_t(4095)); }
size_t malloc_usable_size(void* p) { return p ? usable(p) : 0; }
}

static void* newImpl(size_t n, bool nothrow)
{
    if (!engineHeap && shouldFail(1)) { if (nothrow) return nullptr; throw std::bad_alloc(); }
    void* p = doMalloc(n);
    if (!p && !nothrow) throw std::bad_alloc();
    return p;
}
void* operator new(size_t n) { return newImpl(n, false); }
void* operator new[](size_t n) { return newImpl(n, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return newImpl(n, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return newImpl(n, true); }
void operator delete(void* p) noexcept { doFree(p); }
void operator delete[](void* p) noexcept { doFree(p); }
void operator delete(void* p, size_t) noexcept { doFree(p); }
void operator delete[](void* p, size_t) noexcept { doFree(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { doFree(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { doFree(p); }
