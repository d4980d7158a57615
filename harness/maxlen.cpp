// C07: the documented maximum lengths (2^30; Bluestein 2^28) without the memory they need: every array of the caller and of
// the library is a range of addresses between 128 inaccessible gigabytes on either side that shows the same few physical pages again and again,
// filled with NaN.  Values mean nothing then; which addresses are accessed does not depend on them.
//   maxlen KIND BACKEND N OPS(mask)
#include "inst.h"
#include <sys/mman.h>
#include <csignal>
#include <cerrno>
#include <cmath>
static const size_t PIECE = 8 << 20, GAP = 128ull << 30; static int fd = -1; static std::string at; static long execs, bytes_;
struct Reg { char* base; size_t len; char* p; size_t n; }; static Reg regs[64]; static int nregs;
static char* alias(size_t n) {
    const size_t len = (n + PIECE - 1) / PIECE * PIECE; char* b = (char*)mmap(nullptr, len + 2 * GAP, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (b == MAP_FAILED) return nullptr;
    const size_t full = (n + 4095) / 4096 * 4096;    // inaccessible from the page after the last byte
    for (size_t o = 0; o < full; o += PIECE) if (mmap(b + GAP + o, std::min(PIECE, full - o), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) return nullptr;
    for (int i = 0; i < 64; i++) if (!regs[i].base) { regs[i] = Reg{b, len + 2 * GAP, b + GAP, n}; bytes_ += n; return b + GAP; }
    return nullptr; }
static const size_t BIG = 64 << 20; static bool short_;      // short_: no more address ranges (a limit of this machine)
static void* big(size_t n) { void* p = alias(n); if (!p) short_ = true; return p; }
extern "C" { int __real_posix_memalign(void**, size_t, size_t); void __real_free(void*); void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_aligned_alloc(size_t, size_t); void* __real_memalign(size_t, size_t);
int __wrap_posix_memalign(void** p, size_t a, size_t n) { if (n < BIG) return __real_posix_memalign(p, a, n); *p = big(n); return *p ? 0 : ENOMEM; }
void* __wrap_malloc(size_t n) { return n < BIG ? __real_malloc(n) : big(n); }
void* __wrap_calloc(size_t a, size_t b) { return a * b < BIG ? __real_calloc(a, b) : big(a * b); }
void* __wrap_aligned_alloc(size_t a, size_t n) { return n < BIG ? __real_aligned_alloc(a, n) : big(n); }
void* __wrap_memalign(size_t a, size_t n) { return n < BIG ? __real_memalign(a, n) : big(n); }
void __wrap_free(void* p) { if (p) for (auto& r : regs) if (r.base && p == r.p) { munmap(r.base, r.len); r.base = nullptr; return; } __real_free(p); } }
void* operator new(size_t n) { void* p = __wrap_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { __wrap_free(p); } void operator delete(void* p, size_t) noexcept { __wrap_free(p); }
void* operator new[](size_t n) { return operator new(n); } void operator delete[](void* p) noexcept { __wrap_free(p); } void operator delete[](void* p, size_t) noexcept { __wrap_free(p); }
static void fault(int, siginfo_t* si, void*) {
    char* a = (char*)si->si_addr; std::string w = "outside of every array"; for (auto& r : regs) if (r.base && a >= r.base && a < r.base + r.len) { w = S((long)(a - r.p)) + " bytes from the start of an array of " + S((long)r.n) + " bytes"; break; }
    report(at + ": access " + w, "maxlen|" + at); fflush(stdout); printf("{\"execs\": %ld, \"bytes\": %ld}\n", execs, bytes_); fflush(stdout); _exit(1); }
int main(int argc, char** argv) {
    if (argc < 5) return 3;
    const char k = argv[1][0]; const int b = argv[2][0] == 's' ? 0 : argv[2][0] == 'a' ? 1 : 2; const long n = atol(argv[3]); const int mask = strtol(argv[4], nullptr, 16);
    fd = memfd_create("alias", MFD_CLOEXEC); if (fd < 0 || ftruncate(fd, PIECE)) return 3;
    { std::vector<double> v(PIECE / 8, NAN); if (write(fd, v.data(), PIECE) != (ssize_t)PIECE) return 3; }
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = fault; sa.sa_flags = SA_SIGINFO; sigaction(SIGSEGV, &sa, nullptr); sigaction(SIGBUS, &sa, nullptr);
    const std::string w = std::string(1, k) + " " + BEN[b] + " N=" + argv[3] + " ";
    double* x = (double*)alias(8 * xlen(k, n)), *y = ylen(k, n) ? (double*)alias(8 * ylen(k, n)) : nullptr; if (!x) { printf("{\"skipped\": 1}\n"); return 0; }
    try {
        at = w + "creation"; printf("{\"at\": \"%s\"}\n", at.c_str()); fflush(stdout); Inst i(k, b, (int)n); execs++;
        for (int op = 0; op < 8; op++) if ((mask >> op & 1) && has_op(k, op)) { at = w + OPN[op]; printf("{\"at\": \"%s\"}\n", at.c_str()); fflush(stdout); i.run(op, x, y); execs++; }
        at = w + "destruction"; i.destroy(); execs++;
    } catch (const std::exception& e) { if (short_) { printf("{\"skipped\": 1}\n"); return 0; } report(at + ": " + e.what(), "maxlen|" + at); }
    printf("{\"execs\": %ld, \"bytes\": %ld}\n", execs, bytes_); return g_nviol ? 1 : 0;
}
