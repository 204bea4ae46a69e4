// Allocation seam: global operator new/delete and malloc, with accounting and failures.
#include "rt.hpp"
#include <new>
#include <errno.h>
#include <malloc.h>
#include <unistd.h>
#include <sys/mman.h>
extern "C" { void* __libc_malloc(size_t); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t); void __libc_free(void*); }
namespace qs {
struct Hdr { u64 magic, size; u32 cls, pad; u64 cap; };
static const u64 LIVE = 0x51ea11fe51ea11feull, DEAD = 0xdeadb10cdeadb10cull;
struct FreeNode { FreeNode* next; };
static FreeNode* freeList[512];
static char* bump;
static u64 newCount, mallocCount;
static bool on, mfail, nfail;
static const size_t ARENA = 24ull << 30;

void memInit()
{
    arenaB = (char*)mmap((void*)0x100000000000ull, ARENA, PROT_READ | PROT_WRITE,
        MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (arenaB == MAP_FAILED) { perror("arena"); _exit(97); }
    arenaE = arenaB + ARENA;
    bump = arenaB;
}
void memRun()
{
    memset(freeList, 0, sizeof freeList);
    newCount = mallocCount = 0;
    bump = arenaB;
    on = true;
    mfail = nfail = false;
    for (const Fault& f : rt.spec->faults) if (f.what == W_ALLOC) { if (f.cls) mfail = true; else nfail = true; }
}
static u32 classOf(size_t n, size_t& cap)
{
    size_t c = (n + 15) & ~15ull;
    if (c <= 1024) { cap = c < 16 ? 16 : c; return (u32)(cap / 16); }
    int lg = 63 - __builtin_clzll(c - 1);          // 2^lg < c <= 2^(lg+1)
    size_t step = (1ull << lg) / 4, base = 1ull << lg;
    u32 k = (u32)((c - base + step - 1) / step);
    cap = base + k * step;
    return 64 + (u32)(lg - 9) * 5 + k;
}
static bool failing(bool isMalloc)
{
    u64 n = isMalloc ? ++mallocCount : ++newCount;
    if (isMalloc ? !mfail : !nfail) return false;
    int i = 0; bool r = false;
    for (const Fault& f : rt.spec->faults)
    {
        if (f.what == W_ALLOC && (f.cls != 0) == isMalloc && (n == f.n || (f.sticky && n > f.n))) { fired(i); r = true; }
        i++;
    }
    return r;
}
static void* get(size_t n)
{
    if (!on || !self || !rt.active || self->depth) return __libc_malloc(n ? n : 1);
    sh->allocs++;
    if (failing(false)) return NULL;
    size_t cap; u32 c = classOf(n, cap);
    Hdr* h;
    if (freeList[c]) { FreeNode* f = freeList[c]; freeList[c] = f->next; h = (Hdr*)f - 1; }
    else
    {
        if (bump + cap + sizeof(Hdr) + 64 > arenaE) return NULL;
        h = (Hdr*)bump; bump += cap + sizeof(Hdr);
        if (cap >= 4096) bump = (char*)(((u64)bump + 63) & ~63ull);
        h->cls = c; h->cap = cap;
    }
    h->magic = LIVE; h->size = n;
    if (n <= 65536) memset(h + 1, 0xA0 + rt.spec->poison, n);
    sh->liveblocks++; sh->livebytes += n;
    if (sh->livebytes > sh->peakbytes) sh->peakbytes = sh->livebytes;
    return h + 1;
}
static void put(void* p)
{
    if (!p) return;
    if ((char*)p < arenaB || (char*)p >= arenaE) { __libc_free(p); return; }
    Hdr* h = (Hdr*)p - 1;
    if (h->magic != LIVE)
    {
        sh->doublefree++;
        note(h->magic == DEAD ? "memory freed twice" : "invalid or overwritten memory block freed");
        abort();
    }
    h->magic = DEAD;
    sh->liveblocks--; sh->livebytes -= h->size;
    if (h->size <= 65536) memset(p, 0xDD, h->size);
    shadowFree(p, h->cap);
    FreeNode* f = (FreeNode*)p;
    f->next = freeList[h->cls]; freeList[h->cls] = f;
}
void memCounts(u64& n, u64& m) { n = newCount; m = mallocCount; }
}
using namespace qs;
void* operator new(size_t n)
{
    for (;;)
    {
        if (void* p = get(n)) return p;
        std::new_handler h = std::get_new_handler();
        if (!h) throw std::bad_alloc();
        h();
    }
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return operator new(n); } catch (...) { return NULL; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return operator new(n); } catch (...) { return NULL; } }
void* operator new(size_t n, std::align_val_t a) { void* p = __libc_memalign((size_t)a, n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
void operator delete(void* p) noexcept { put(p); }
void operator delete[](void* p) noexcept { put(p); }
void operator delete(void* p, size_t) noexcept { put(p); }
void operator delete[](void* p, size_t) noexcept { put(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { put(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { put(p); }
void operator delete(void* p, std::align_val_t) noexcept { __libc_free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { __libc_free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { __libc_free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { __libc_free(p); }

static inline bool cfail()
{
    if (!on || !self || !rt.active || self->depth) return false;
    return failing(true);
}
extern "C" {
void* malloc(size_t n) { if (cfail()) { errno = ENOMEM; return NULL; } return __libc_malloc(n); }
void* calloc(size_t a, size_t b) { if (cfail()) { errno = ENOMEM; return NULL; } return __libc_calloc(a, b); }
void* realloc(void* p, size_t n) { if (cfail()) { errno = ENOMEM; return NULL; } return __libc_realloc(p, n); }
}
