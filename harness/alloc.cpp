#include "alloc.h"
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <cerrno>
#include <new>
#include <sys/mman.h>
#include <atomic>
#include <unistd.h>
extern "C" { void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_memalign(size_t, size_t); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t);
extern char __executable_start, etext; }
namespace mem {
volatile int armed = 0; long calls = 0, frees = 0, fail_at = -1, failed = 0, live = 0, live_bytes = 0, bad_free = 0; size_t last_size = 0; int fail_persist = 0; char bad_msg[256]; int fill = 0, guard = 0, off = 0;
enum Fam { M, N, A, NA, AA };
static const char* FAM[] = {"malloc", "operator new", "operator new[]", "aligned operator new", "aligned operator new[]"};
struct Blk { void* p; size_t n; unsigned char fam; unsigned char state; void* map; size_t mapn; size_t align; };   // state 1 live, 2 released
static const int CAP = 1 << 16; static Blk tab[CAP]; static int used[CAP], nused = 0;   // used: slots taken since the table was last cleared
static std::atomic_flag lk = ATOMIC_FLAG_INIT;
struct Lock { Lock() { while (lk.test_and_set(std::memory_order_acquire)); } ~Lock() { lk.clear(std::memory_order_release); } };
static Blk* find(void* p) { uint64_t h = ((uintptr_t)p >> 4) * 0x9e3779b97f4a7c15ull >> 48; for (int i = 0; i < CAP; i++) { Blk* b = &tab[(h + i) & (CAP - 1)]; if (!b->p) return nullptr; if (b->p == p) return b; } return nullptr; }
static Blk* slot(void* p) { uint64_t h = ((uintptr_t)p >> 4) * 0x9e3779b97f4a7c15ull >> 48; Blk* t = nullptr; for (int i = 0; i < CAP; i++) { Blk* b = &tab[(h + i) & (CAP - 1)]; if (b->p == p) return b; if (b->p && !b->state && !t) t = b; if (!b->p) return t ? t : b; } if (t) return t; __builtin_trap(); }
static const size_t PG = 4096;
void fillmem(void* p, size_t n, int pat) {
    uint64_t v; switch (pat) { case 0: return; case 1: v = 0; break; case 2: v = 0x7ff8dead7ff8deadull; break; case 3: v = 0x54b249ad2594c37dull; break; default: v = ~0ull; }
    size_t i = 0; unsigned char* q = (unsigned char*)p; for (; i + 8 <= n; i += 8) memcpy(q + i, &v, 8); for (; i < n; i++) q[i] = (unsigned char)(v >> (8 * (i & 7)));
}
static inline bool ours(void* ra) { return (char*)ra >= &__executable_start && (char*)ra < &etext; }
static void* get(size_t n, size_t align, Fam f) {
    Lock l;
    long k = calls++; last_size = n;
    if (fail_at >= 0 && (k == fail_at || (fail_persist && k > fail_at))) { failed++; return nullptr; }
    void *p, *map = nullptr; size_t mapn = 0;
    if (align < 16) align = 16;
    if (guard) {
        size_t body = (n + align + PG - 1) / PG * PG; if (!body) body = PG;
        mapn = body + 2 * PG;
        map = mmap(nullptr, mapn, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (map == MAP_FAILED) { static const char m[] = "harness: mmap failed\n"; if (write(2, m, sizeof m - 1)) {} _exit(3); }
        char* b = (char*)map + PG; mprotect(b, body, PROT_READ | PROT_WRITE);
        if (guard == 1) { uintptr_t e = (uintptr_t)b + body - n; p = (void*)(e / align * align); memset(b, 0xa5, body); }
        else { p = b; memset(b, 0xa5, body); if (align > PG) p = (void*)(((uintptr_t)b + align - 1) / align * align); }
    } else p = __libc_memalign(align, n ? n : 1);
    if (!p) return nullptr;
    fillmem(p, n, fill);
    Blk* b = slot(p); if (!b->p) used[nused++] = (int)(b - tab); b->p = p; b->n = n; b->fam = f; b->state = 1; b->map = map; b->mapn = mapn; b->align = align;
    live++; live_bytes += n;
    return p;
}
// returns true if handled
static bool slack1(Blk* b) {
    unsigned char* lo = (unsigned char*)b->map + PG; unsigned char* hi = (unsigned char*)b->map + b->mapn - PG;
    for (unsigned char* q = lo; q < (unsigned char*)b->p; q++) if (*q != 0xa5) return false;
    for (unsigned char* q = (unsigned char*)b->p + b->n; q < hi; q++) if (*q != 0xa5) return false;
    return true;
}
static bool put(void* p, Fam f) {
    if (!p) return true;
    Lock l;
    Blk* b = find(p); if (!b || b->state == 0) return false;
    if (b->state == 2) {
        bad_free++; snprintf(bad_msg, sizeof bad_msg, "block of %zu bytes released twice", b->n); return true;
    }
    frees++; live--; live_bytes -= b->n; b->state = 2;
    if (b->fam != f) { bad_free++; snprintf(bad_msg, sizeof bad_msg, "block of %zu bytes from %s released with the counterpart of %s", b->n, FAM[b->fam], FAM[f]); }
    if (b->map) { if (!slack1(b)) { bad_free++; snprintf(bad_msg, sizeof bad_msg, "memory around a block of %zu bytes was overwritten", b->n); } mprotect(b->map, b->mapn, PROT_NONE); }
    else fillmem(p, b->n, fill ? fill : 4);      // quarantined until collect()
    return true;
}
void reset_calls() { calls = frees = 0; }
bool slack_ok() { Lock l; for (int i = 0; i < nused; i++) { Blk& b = tab[used[i]]; if (b.p && b.state == 1 && b.map && !slack1(&b)) return false; } return true; }
void collect() { Lock l; bool any = false;
    for (int i = 0; i < nused; i++) { Blk& b = tab[used[i]]; if (b.p && b.state == 2) { if (b.map) munmap(b.map, b.mapn); else __libc_free(b.p); b.state = 0; } if (b.state == 1) any = true; }
    if (!any) { for (int i = 0; i < nused; i++) memset(&tab[used[i]], 0, sizeof(Blk)); nused = 0; } }
}
using namespace mem;
#define RA __builtin_return_address(0)
#define TRACK (armed && ours(RA))
extern "C" {
void* malloc(size_t n) { if (TRACK) { void* p = get(n, 16, M); if (!p) errno = ENOMEM; return p; } return __libc_malloc(n); }
void* calloc(size_t a, size_t b) { if (TRACK) { size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; } void* p = get(n, 16, M); if (p) memset(p, 0, n); else errno = ENOMEM; return p; } return __libc_calloc(a, b); }
void* memalign(size_t al, size_t n) { if (TRACK) { void* p = get(n, al, M); if (!p) errno = ENOMEM; return p; } return __libc_memalign(al, n); }
void* aligned_alloc(size_t al, size_t n) { if (TRACK) { void* p = get(n, al, M); if (!p) errno = ENOMEM; return p; } return __libc_memalign(al, n); }
void* valloc(size_t n) { if (TRACK) { void* p = get(n, 4096, M); if (!p) errno = ENOMEM; return p; } return __libc_memalign(4096, n); }
int posix_memalign(void** o, size_t al, size_t n) { void* p = TRACK ? get(n, al, M) : __libc_memalign(al, n); if (!p) return ENOMEM; *o = p; return 0; }
void free(void* p) { int e = errno; if (!put(p, M)) __libc_free(p); errno = e; }
void* realloc(void* p, size_t n) {
    Blk* b = nullptr; { Lock l; b = p ? find(p) : nullptr; if (b && b->state != 1) b = nullptr; }
    if (!b && !(TRACK && !p)) return __libc_realloc(p, n);
    if (b && b->fam != M) { bad_free++; snprintf(bad_msg, sizeof bad_msg, "realloc of a block from %s", FAM[b->fam]); }
    void* q = get(n, 16, M); if (!q) { errno = ENOMEM; return nullptr; }
    if (b) { memcpy(q, p, b->n < n ? b->n : n); put(p, M); }
    return q;
}
}
static void* nw(size_t n, size_t al, Fam f, void* ra, bool thr) {
    void* p = armed ? get(n, al, f) : (al > 16 ? __libc_memalign(al, n) : __libc_malloc(n ? n : 1));
    if (!p && thr) throw std::bad_alloc(); return p;
}
static void dl(void* p, Fam f) { if (!put(p, f)) __libc_free(p); }
void* operator new(size_t n) { return nw(n, 16, N, RA, true); }
void* operator new[](size_t n) { return nw(n, 16, A, RA, true); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return nw(n, 16, N, RA, false); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return nw(n, 16, A, RA, false); }
void* operator new(size_t n, std::align_val_t a) { return nw(n, (size_t)a, NA, RA, true); }
void* operator new[](size_t n, std::align_val_t a) { return nw(n, (size_t)a, AA, RA, true); }
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return nw(n, (size_t)a, NA, RA, false); }
void* operator new[](size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return nw(n, (size_t)a, AA, RA, false); }
void operator delete(void* p) noexcept { dl(p, N); }
void operator delete[](void* p) noexcept { dl(p, A); }
void operator delete(void* p, size_t) noexcept { dl(p, N); }
void operator delete[](void* p, size_t) noexcept { dl(p, A); }
void operator delete(void* p, const std::nothrow_t&) noexcept { dl(p, N); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { dl(p, A); }
void operator delete(void* p, std::align_val_t) noexcept { dl(p, NA); }
void operator delete[](void* p, std::align_val_t) noexcept { dl(p, AA); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { dl(p, NA); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { dl(p, AA); }
