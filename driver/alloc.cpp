#include "alloc.h"
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <new>
#include <map>
#include <atomic>
#include <sys/mman.h>
#include <unistd.h>

extern "C" {
void* __real_malloc(size_t);
void __real_free(void*);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
int __real_posix_memalign(void**, size_t, size_t);
}

namespace va {
thread_local int inlib = 0;
int fill = 0, guard = 0, freeze = 0;
long gen = 0; int once_depth = 0;
long failat = 0, count = 0, failed = 0, badfree = 0, canary = 0;
size_t lastreq = 0;
long held = 0, peak = 0;
static std::atomic_flag lk = ATOMIC_FLAG_INIT;
struct Lock { Lock() { while (lk.test_and_set(std::memory_order_acquire)); } ~Lock() { lk.clear(std::memory_order_release); } };

static const int MAXB = 1 << 16;
static Block tab[MAXB];
static int nb = 0;
static const size_t CAN = 64;
static size_t quar = 0;
static const size_t QMAX = 256u << 20;

static void paint(void* p, size_t n)
{
    unsigned char* c = (unsigned char*)p;
    if (fill == 0) memset(c, 0xFF, n);                 // quiet NaNs
    else if (fill == 2) memset(c, 0, n);
    else {
        uint64_t s = 0x9E3779B97F4A7C15ull ^ n;
        size_t i = 0;
        for (; i + 8 <= n; i += 8) {
            s ^= s << 13; s ^= s >> 7; s ^= s << 17;
            double d = (double)(int64_t)(s >> 20) * 1e-3;
            memcpy(c + i, &d, 8);
        }
        for (; i < n; i++) c[i] = 0x5A;
    }
}

static bool canary_ok(const Block& b)
{
    if (b.maplen) {
        // guard page mode: slack between the block's end and the guard page / its start and the page start
        const unsigned char* m = (const unsigned char*)b.base;
        size_t pg = 4096;
        const unsigned char* lo = m + pg; const unsigned char* hi = m + b.maplen - pg;
        for (const unsigned char* q = lo; q < (const unsigned char*)b.p; q++) if (*q != 0xA5) return false;
        for (const unsigned char* q = (const unsigned char*)b.p + b.n; q < hi; q++) if (*q != 0xA5) return false;
        return true;
    }
    const unsigned char* a = (const unsigned char*)b.p - CAN; const unsigned char* z = (const unsigned char*)b.p + b.n;
    for (size_t i = 0; i < CAN; i++) if (a[i] != 0xA5 || z[i] != 0xA5) return false;
    return true;
}

static void* alloc(size_t n, size_t al)
{
    Lock l;
    count++; gen++; lastreq = n;
    if (failat > 0 && count >= failat && failed == 0) { failed++; return nullptr; }
    if (al < 16) al = 16;
    Block b; b.n = n; b.owner = inlib - 1; b.live = 1; b.maplen = 0; b.base = 0;
    if (guard) {
        size_t pg = 4096, body = (n + al + pg - 1) / pg * pg; if (body == 0) body = pg;
        char* m = (char*)mmap(nullptr, body + 2 * pg, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (m == MAP_FAILED) return nullptr;
        mprotect(m + pg, body, PROT_READ | PROT_WRITE);
        memset(m + pg, 0xA5, body);
        uintptr_t p;
        if (guard == 1) p = ((uintptr_t)(m + pg + body) - n) / al * al;   // flush with the upper guard
        else p = (uintptr_t)(m + pg);                                     // flush with the lower guard
        b.p = p; b.base = (uintptr_t)m; b.maplen = body + 2 * pg;
    } else {
        size_t pre = (CAN + al - 1) / al * al;
        // avoid accidentally larger alignment: the block is al-aligned but not 2*al aligned
        char* r = (char*)__real_malloc(n + pre + CAN + 2 * al + al);
        if (!r) return nullptr;
        uintptr_t p = ((uintptr_t)r + pre + al - 1) / al * al;
        if (p % (2 * al) == 0) p += al;
        memset(r, 0xA5, n + pre + CAN + 2 * al + al);
        b.p = p; b.base = (uintptr_t)r;
    }
    paint((void*)b.p, n);
    if (b.owner >= 0 && b.owner != ONCE) { held += n; if (held > peak) peak = held; }
    for (int i = nb - 1; i >= 0; i--) if (tab[i].live == 0 && tab[i].p == 0) { tab[i] = b; return (void*)b.p; }
    if (nb == MAXB) abort();
    tab[nb++] = b;
    return (void*)b.p;
}

// returns true if the pointer was ours
static bool release(void* p)
{
    Lock l;
    uintptr_t a = (uintptr_t)p;
    int dead = -1;
    for (int i = nb - 1; i >= 0; i--) {
        if (tab[i].p != a) continue;
        if (!tab[i].live) { dead = i; continue; }
        Block& b = tab[i]; gen++;
        if (!canary_ok(b)) canary++;
        b.live = 0;
        if (b.owner >= 0 && b.owner != ONCE) held -= b.n;
        // freed blocks stay in quarantine till the end of the case (bounded), so that a second free or a
        // write after the free can be told
        if (quar + b.n > QMAX) {
            if (b.maplen) munmap((void*)b.base, b.maplen); else __real_free((void*)b.base);
            b.p = 0;
        } else {
            quar += b.n;
            if (b.maplen) mprotect((void*)b.base, b.maplen, PROT_NONE); else memset((void*)b.p, 0xEE, b.n);
        }
        return true;
    }
    if (dead >= 0 && inlib) { badfree++; return true; }
    return false;
}

static size_t sizeof_block(void* p)
{
    for (int i = nb - 1; i >= 0; i--) if (tab[i].p == (uintptr_t)p && tab[i].live) return tab[i].n;
    return 0;
}

long live_blocks(int owner) { Lock l; long c = 0; for (int i = 0; i < nb; i++) if (tab[i].live && (owner < 0 ? tab[i].owner >= 0 && tab[i].owner != ONCE : tab[i].owner == owner)) c++; return c; }
long live_bytes(int owner) { Lock l; long c = 0; for (int i = 0; i < nb; i++) if (tab[i].live && (owner < 0 ? tab[i].owner >= 0 && tab[i].owner != ONCE : tab[i].owner == owner)) c += tab[i].n; return c; }
void arm(long k) { Lock l; failat = k; count = 0; failed = 0; }
bool check_all() { Lock l; for (int i = 0; i < nb; i++) if (tab[i].live && !canary_ok(tab[i])) return false; return true; }
const Block* find(uintptr_t a) { for (int i = 0; i < nb; i++) if (tab[i].live && a >= tab[i].p && a < tab[i].p + tab[i].n) return &tab[i]; return nullptr; }
void snapshot(std::vector<Block>& v)
{
    v.reserve((size_t)nb + 1024);           // nothing is allocated while the lock is held
    Lock l; for (int i = 0; i < nb; i++) if (tab[i].p && v.size() < v.capacity()) v.push_back(tab[i]);
}
bool quarantine_ok()
{
    Lock l;
    for (int i = 0; i < nb; i++) {
        const Block& b = tab[i];
        if (b.live || b.p == 0 || b.maplen) continue;
        const unsigned char* c = (const unsigned char*)b.p;
        for (size_t k = 0; k < b.n; k++) if (c[k] != 0xEE) return false;
    }
    return true;
}
void forget() {
    Lock l; gen++; held = peak = 0;
    int keep = 0;
    for (int i = 0; i < nb; i++) {
        Block b = tab[i];
        if (b.p == 0) continue;
        if (b.live) { if (b.owner != ONCE) b.owner = -2; tab[keep++] = b; continue; }      // leaked (already reported): leave it alone
        if (b.maplen) munmap((void*)b.base, b.maplen); else __real_free((void*)b.base);
    }
    nb = keep; quar = 0; count = failed = badfree = canary = failat = 0; }
}

using namespace va;

extern "C" {
void* __wrap_malloc(size_t n) { return inlib ? alloc(n, 16) : __real_malloc(n); }
void* __wrap_calloc(size_t a, size_t b) { if (!inlib) return __real_calloc(a, b); void* p = alloc(a * b, 16); if (p) memset(p, 0, a * b); return p; }
void __wrap_free(void* p) { if (!p) return; if (release(p)) return; if (inlib) { badfree++; return; } __real_free(p); }
void* __wrap_realloc(void* p, size_t n)
{
    if (!inlib) return __real_realloc(p, n);
    void* q = alloc(n, 16); if (!q) return q;
    if (p) { size_t o = sizeof_block(p); memcpy(q, p, o < n ? o : n); release(p); }
    return q;
}
int __wrap_posix_memalign(void** r, size_t al, size_t n)
{
    if (!inlib) return __real_posix_memalign(r, al, n);
    void* p = alloc(n, al); if (!p) return ENOMEM; *r = p; return 0;
}
void* __wrap_aligned_alloc(size_t al, size_t n) { if (inlib) return alloc(n, al); void* p = nullptr; return __real_posix_memalign(&p, al, n) ? nullptr : p; }
void* __wrap_memalign(size_t al, size_t n) { if (inlib) return alloc(n, al); void* p = nullptr; return __real_posix_memalign(&p, al, n) ? nullptr : p; }
}

// function-local statics: what their guarded initialisation allocates belongs to the process, not to the caller's object
extern "C" {
int __real___cxa_guard_acquire(void*); void __real___cxa_guard_release(void*); void __real___cxa_guard_abort(void*);
static thread_local std::vector<int>* once_stack = nullptr;
int __wrap___cxa_guard_acquire(void* g)
{
    int r = __real___cxa_guard_acquire(g);
    if (r && inlib) { int o = inlib; inlib = 0; if (!once_stack) once_stack = new std::vector<int>; once_stack->push_back(o); inlib = ONCE + 1; once_depth++; }
    return r;
}
static void once_end() { if (inlib == ONCE + 1 && once_stack && !once_stack->empty()) { inlib = once_stack->back(); once_stack->pop_back(); once_depth--; } }
void __wrap___cxa_guard_release(void* g) { once_end(); __real___cxa_guard_release(g); }
void __wrap___cxa_guard_abort(void* g) { once_end(); __real___cxa_guard_abort(g); }
}

// std::call_once / pthread_once: the same
extern "C" {
int __real_pthread_once(int*, void (*)(void));
static thread_local void (*once_fn)(void) = nullptr;
static void once_run() { void (*f)(void) = once_fn; int o = inlib; if (inlib) { inlib = ONCE + 1; once_depth++; } f(); if (o) { inlib = o; once_depth--; } }
int __wrap_pthread_once(int* c, void (*f)(void)) { auto o = once_fn; once_fn = f; int r = __real_pthread_once(c, once_run); once_fn = o; return r; }
}

static void* opnew(size_t n) { void* p = inlib ? alloc(n, 16) : __real_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
static void opdel(void* p) { __wrap_free(p); }
void* operator new(size_t n) { return opnew(n); }
void* operator new[](size_t n) { return opnew(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return inlib ? alloc(n, 16) : __real_malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return inlib ? alloc(n, 16) : __real_malloc(n ? n : 1); }
void* operator new(size_t n, std::align_val_t a) { void* p = nullptr; if (inlib) p = alloc(n, (size_t)a); else if (__real_posix_memalign(&p, (size_t)a < 8 ? 8 : (size_t)a, n)) p = nullptr; if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
void operator delete(void* p) noexcept { opdel(p); }
void operator delete[](void* p) noexcept { opdel(p); }
void operator delete(void* p, size_t) noexcept { opdel(p); }
void operator delete[](void* p, size_t) noexcept { opdel(p); }
void operator delete(void* p, std::align_val_t) noexcept { opdel(p); }
void operator delete[](void* p, std::align_val_t) noexcept { opdel(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { opdel(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { opdel(p); }
