// C05: every consistent answer of the feature-detection instructions x every request, on the real dispatcher.
// The dispatcher's assembly has cpuid/xgetbv replaced by  ud2;.byte 1  /  ud2;.byte 2 ; the SIGILL handler answers.
// usage: disp SHARD NSHARDS NOISE(0: none and all-ones, 1: + every single bit)
#include "otfft.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <typeinfo>
#include <stdexcept>
#include <signal.h>
#include <ucontext.h>
#include <unistd.h>
#include <sys/wait.h>
using namespace OTFFT;
typedef unsigned u32; typedef unsigned long long u64;
struct Env { u32 maxleaf; bool sse2, xsave, osxsave, avx, avx2; u64 xcr0; u32 n1c, n1d, n1a, n1b, n7b, n7c, n7d; u64 nx; };
static Env E;
static volatile int badx = 0;       // 1: xgetbv without OSXSAVE, 2: xgetbv of another register, 3: unknown trap
static long ncpuid = 0, nxget = 0;
static void answer(u32 leaf, u32 sub, u32 o[4]) {
    if (leaf >= 0x80000000u) { o[0] = o[1] = o[2] = o[3] = 0; if (leaf == 0x80000000u) o[0] = 0x80000008u; return; }
    if (leaf > E.maxleaf) leaf = E.maxleaf;             // documented: data of the highest basic leaf
    if (leaf == 0) { o[0] = E.maxleaf; o[1] = 0x756e6547; o[2] = 0x6c65746e; o[3] = 0x49656e69; return; }
    if (leaf == 1) {
        const u32 mc = (1u << 26) | (1u << 27) | (1u << 28), md = 1u << 26;
        o[0] = E.n1a; o[1] = E.n1b;
        o[2] = (E.n1c & ~mc) | (E.xsave ? 1u << 26 : 0) | (E.osxsave ? 1u << 27 : 0) | (E.avx ? 1u << 28 : 0);
        o[3] = (E.n1d & ~md) | (E.sse2 ? md : 0); return;
    }
    if (leaf == 7) { if (sub) { o[0] = o[1] = o[2] = o[3] = 0; return; }
        o[0] = 0; o[1] = (E.n7b & ~32u) | (E.avx2 ? 32u : 0); o[2] = E.n7c; o[3] = E.n7d; return; }
    o[0] = E.n1a; o[1] = E.n7b | 32u; o[2] = E.n7c; o[3] = E.n7d;   // other leaves: arbitrary
}
static void onill(int, siginfo_t*, void* c) {
    ucontext_t* u = (ucontext_t*)c; greg_t* g = u->uc_mcontext.gregs; unsigned char* ip = (unsigned char*)g[REG_RIP];
    if (ip[0] != 0x0f || ip[1] != 0x0b || (ip[2] != 1 && ip[2] != 2)) { signal(SIGILL, SIG_DFL); return; }
    if (ip[2] == 1) { u32 o[4]; answer((u32)g[REG_RAX], (u32)g[REG_RCX], o); g[REG_RAX] = o[0]; g[REG_RBX] = o[1]; g[REG_RCX] = o[2]; g[REG_RDX] = o[3]; ncpuid++; }
    else { if (!E.osxsave) badx = 1; else if ((u32)g[REG_RCX] != 0) badx = 2; g[REG_RAX] = (u32)E.xcr0; g[REG_RDX] = (u32)(E.xcr0 >> 32); nxget++; }
    g[REG_RIP] += 3;
}
static const OptimizationType T[4] = {OptimizationType::OPTIMIZED_FFT_AUTO, OptimizationType::OPTIMIZED_FFT_SSE2, OptimizationType::OPTIMIZED_FFT_AVX, OptimizationType::OPTIMIZED_FFT_AVX2};
static const char* TN[4] = {"AUTO", "SSE2", "AVX", "AVX2"}; static const char* KN[4] = {"complex", "real", "dct", "bluestein"};
template <class P> static int level(const P& p) { if (!p) return 9; auto& r = *p; std::string n = typeid(r).name(); return n.find("AVX2") != std::string::npos ? 3 : n.find("AVX") != std::string::npos ? 2 : n.find("SSE2") != std::string::npos ? 1 : 8; }
static long live = 0, calls = 0;
void* operator new(size_t n) { live++; void* p = malloc(n ? n : 1); if (!p) abort(); return p; }
void operator delete(void* p) noexcept { if (p) { live--; free(p); } }
void operator delete(void* p, size_t) noexcept { if (p) { live--; free(p); } }
// 1..3: backend; 0: domain_error; 7: other exception; 6: deletion failed; 5: leak
static int attempt(int kind, int t, int n) {
    calls++; const long l0 = live; int r = -1;
    try {
        try {
            switch (kind) {
                case 0: { auto p = Factory::createComplexFFT(n, T[t]); r = level(p); break; }
                case 1: { auto p = Factory::createRealFFT(n, T[t]); r = level(p); break; }
                case 2: { auto p = Factory::createDCT(n, T[t]); r = level(p); break; }
                default: { auto p = Factory::createBluesteinFFT(n, T[t]); r = level(p); break; }
            }
        } catch (const std::domain_error&) { return r >= 0 ? 6 : 0; }
    } catch (...) { return 7; }
    return live == l0 ? r : 5;
}
static std::string desc() { char b[400]; snprintf(b, 400, "maxleaf=%u SSE2=%d XSAVE=%d OSXSAVE=%d AVX=%d AVX2=%d XCR0=%llx other bits: 1.ecx=%08x 1.edx=%08x 7.ebx=%08x 7.ecx=%08x", E.maxleaf, E.sse2, E.xsave, E.osxsave, E.avx, E.avx2, E.xcr0, E.n1c, E.n1d, E.n7b, E.n7c); return b; }
static long nv = 0;
static void viol(const std::string& s) { if (++nv <= 8) { printf("{\"viol\":\"%s; environment: %s\",\"key\":\"%s\"}\n", s.c_str(), desc().c_str(), s.c_str()); } }
static void explore() {          // in a child: the library decides once per process
    const bool avx = E.avx && E.osxsave && (E.xcr0 & 6) == 6, avx2 = avx && E.avx2 && E.maxleaf >= 7;
    const bool us[4] = {true, E.sse2, avx, avx2}; const int best = avx2 ? 3 : avx ? 2 : E.sse2 ? 1 : 0;
    for (int round = 0; round < 2; round++)
        for (int k0 = 0; k0 < 4; k0++) for (int t0 = 0; t0 < 4; t0++) {
            // the first request of the process varies with the environment so that every request is once the first
            const int rot = (int)((E.maxleaf + E.n1c + E.xcr0 + E.n7b) % 16), i = (k0 * 4 + t0 + rot) % 16, k = i / 4, t = i % 4;
            const int want = t == 0 ? best : us[t] ? t : 0, got = attempt(k, t, round ? 0 : 8);
            if (badx) { viol(badx == 1 ? "XGETBV executed although the operating system has not enabled it" : "XGETBV of an unsupported register"); badx = 0; }
            if (got != want) {
                static const char* G[10] = {"std::domain_error", "SSE2", "AVX", "AVX2", "?", "a leak on destruction", "an exception on destruction", "an exception other than std::domain_error", "an object of no known backend", "a null pointer"};
                viol(std::string("request ") + TN[t] + " for " + KN[k] + " gave " + G[got < 0 ? 4 : got] + " instead of " + G[want]);
            }
        }
}
int main(int argc, char** argv) {
    if (argc < 4) return 3;
    const int sh = atoi(argv[1]), ns = atoi(argv[2]), noise = atoi(argv[3]);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = onill; sa.sa_flags = SA_SIGINFO; sigaction(SIGILL, &sa, 0);
    std::vector<Env> envs; long states = 0, tr = 0, idx = 0;
    const u32 leafs[] = {0, 1, 4, 6, 7, 13, 0x16};
    const u64 xcrs[] = {1, 3, 7, 0xe7};
    for (u32 ml : leafs) for (int b = 0; b < 32; b++) for (u64 x : xcrs) {
        Env e; memset(&e, 0, sizeof e); e.maxleaf = ml; e.sse2 = b & 1; e.xsave = b & 2; e.osxsave = b & 4; e.avx = b & 8; e.avx2 = b & 16; e.xcr0 = x;
        // consistent: what an x86-64 processor and operating system can report (SSE2 absent: only a plain old processor)
        if (ml == 0 && (b || x != 1)) continue;
        if (e.osxsave && !e.xsave) continue; if (e.avx && !e.xsave) continue; if (e.avx2 && (!e.avx || ml < 7)) continue;
        if (!e.osxsave && x != 1) continue; if ((x & 4) && !e.avx) continue; if (!e.sse2 && (e.avx || e.xsave)) continue;
        if ((x & 0xe0) && !e.avx2) continue; if (ml < 13 && e.xsave && ml != 1 && ml != 7) continue;
        envs.push_back(e);
    }
    std::vector<Env> all;
    for (auto& e : envs) for (int bg = 0; bg < 2; bg++) {
        Env f = e; const u32 v = bg ? ~0u : 0; f.n1a = f.n1b = f.n1c = f.n1d = f.n7b = f.n7c = f.n7d = v; all.push_back(f);
        if (noise) for (int r = 0; r < 6; r++) for (int bit = 0; bit < 32; bit++) { Env g = f; u32* w[6] = {&g.n1b, &g.n1c, &g.n1d, &g.n7b, &g.n7c, &g.n7d}; *w[r] ^= 1u << bit; if (r >= 3 && g.maxleaf < 7) continue; all.push_back(g); }
        if (e.osxsave) for (int bit : {3, 4, 8, 9, 17, 18, 34, 62}) { Env g = f; g.xcr0 |= 1ull << bit; all.push_back(g); }
    }
    int fd[2]; long outcomes[4] = {0, 0, 0, 0};
    for (auto& e : all) {
        if (idx++ % ns != sh) continue;
        E = e; states++; fflush(stdout);
        if (pipe(fd)) return 3;
        pid_t p = fork();
        if (p < 0) return 3;
        if (p == 0) { explore(); long o[4] = {nv, calls, ncpuid, nxget}; fflush(stdout); if (write(fd[1], o, sizeof o) != sizeof o) _exit(4); _exit(0); }
        close(fd[1]); long o[4] = {0, 0, 0, 0}; ssize_t g = read(fd[0], o, sizeof o); close(fd[0]); int st; waitpid(p, &st, 0);
        if (g != sizeof o || st != 0) { char b[80]; snprintf(b, 80, "process died (status %x)", st); viol(b); }
        nv += o[0]; tr += o[1]; outcomes[0] += o[2]; outcomes[1] += o[3];
        if (o[1] && !o[2]) { fprintf(stderr, "no feature-detection instruction was intercepted\n"); return 3; }
    }
    printf("{\"states\":%ld,\"transitions\":%ld,\"base\":%zu,\"cpuid\":%ld,\"xgetbv\":%ld,\"sample\":\"%s\"}\n", states, tr, envs.size(), outcomes[0], outcomes[1], desc().c_str());
    return 0;
}
