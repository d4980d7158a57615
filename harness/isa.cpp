// C12: runs the whole operation set on one backend in a binary whose above-level instructions were replaced by breakpoints
// (and CPUID/XGETBV too, to present an environment without the higher features).
// usage: isa ENV KIND BACKEND(s|a|v|A) LENGTHS       ENV: none | sse2 | avx : the processor the program is shown
#include "inst.h"
#include <signal.h>
#include <ucontext.h>
#include <sys/mman.h>
#include <cpuid.h>
static volatile char g_cur[256] = "program start"; static int g_env = 0; static long traps = 0;
extern "C" { extern char __executable_start, etext; }
// filled in by the patcher: addresses of the detection instructions (they are part of the dispatcher and are emulated)
struct Site { unsigned long addr; unsigned int op; };
__attribute__((section(".isasites"), used)) volatile Site g_sites[256] = {{0x5157e5175157e517ul, 0}};
static void ontrap(int, siginfo_t*, void* uc) {
    greg_t* g = ((ucontext_t*)uc)->uc_mcontext.gregs; unsigned long ip = g[REG_RIP] - 1;
    for (int i = 0; i < 256; i++) if (g_sites[i].addr == ip && ip) {
        traps++;
        if (g_sites[i].op == 1) {   // cpuid: processor as shown
            unsigned a, b, c, d, leaf = (unsigned)g[REG_RAX], sub = (unsigned)g[REG_RCX]; __cpuid_count(leaf, sub, a, b, c, d);
            if (leaf == 1 && g_env == 1) c &= ~(1u << 28 | 1u << 12 | 1u << 27 | 1u << 29 | 1u << 0 | 1u << 9 | 1u << 19 | 1u << 20);
            if (leaf == 1 && g_env == 2) c &= ~(1u << 12);
            if (leaf == 7 && g_env) { b = 0; c = 0; d = 0; }
            g[REG_RAX] = a; g[REG_RBX] = b; g[REG_RCX] = c; g[REG_RDX] = d; g[REG_RIP] = ip + 2;
        } else {
            if (g_env == 1) { const char m[] = "{\"viol\": \"XGETBV executed on a processor that does not enable it\", \"key\": \"xgetbv\"}\n"; if (write(1, m, sizeof m - 1)) {} _exit(1); }
            g[REG_RAX] = 7; g[REG_RDX] = 0; g[REG_RIP] = ip + 3;
        }
        return;
    }
    char b[600]; int n = snprintf(b, sizeof b, "{\"trap\": \"%#lx\", \"cur\": \"%s\"}\n", ip, (const char*)g_cur); if (write(1, b, n)) {} _exit(1);
}
__attribute__((constructor(101))) static void early() {
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = ontrap; sa.sa_flags = SA_SIGINFO; sigaction(SIGTRAP, &sa, 0);
}
int main(int argc, char** argv) {
    if (argc < 5) return 3;
    g_env = !strcmp(argv[1], "sse2") ? 1 : !strcmp(argv[1], "avx") ? 2 : 0;
    char kind = argv[2][0]; int be = argv[3][0] == 's' ? 0 : argv[3][0] == 'a' ? 1 : argv[3][0] == 'v' ? 2 : 3; auto L = ints(argv[4]); long states = 0, trans = 0;
    for (int n : L) {
        states++;
        snprintf((char*)g_cur, 256, "%c %s N=%d create", kind, BEN[be], n);
        std::vector<double> x(xlen(kind, n) + 2), y(ylen(kind, n) + 2);
        { Inst I(kind, be, n);
          for (int op = 0; op < 8 && n > 0; op++) if (has_op(kind, op)) {
            input(kind, n, op, 1, x.data(), y.data()); snprintf((char*)g_cur, 256, "%c %s N=%d %s", kind, BEN[be], n, OPN[op]); I.run(op, x.data(), y.data()); trans++; }
          snprintf((char*)g_cur, 256, "%c %s N=%d setup", kind, BEN[be], n); I.setup(n);
          snprintf((char*)g_cur, 256, "%c %s N=%d destroy", kind, BEN[be], n); }
    }
    printf("{\"states\": %ld, \"transitions\": %ld, \"detections\": %ld}\n", states, trans, traps);
    return 0;
}
