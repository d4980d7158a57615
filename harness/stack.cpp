// C19: the stack that every setup and transform uses, measured on a painted stack (see DESIGN.md).
//   stack KIND LISTFILE SHARD NSHARDS LIMIT
#include "inst.h"
#include <ucontext.h>
#include <sys/mman.h>
static const size_t SZ = 8 << 20; static char* stk; static ucontext_t back, ctx; static struct { Inst** i; char k; int b; long n; int op; double* x, *y; bool failed; } job;
static void body() {
    try { if (job.op == -2) *job.i = new Inst(job.k, job.b, job.n); else if (job.op == -1) (*job.i)->setup(job.n); else if (job.op == 8) { delete *job.i; *job.i = nullptr; } else (*job.i)->run(job.op, job.x, job.y); } catch (...) { job.failed = true; } }
static size_t low;    // lowest byte written since the last painting
static long depth() {
    getcontext(&ctx); ctx.uc_stack.ss_sp = stk; ctx.uc_stack.ss_size = SZ; ctx.uc_link = &back; makecontext(&ctx, body, 0); swapcontext(&back, &ctx);
    size_t i = 0; const uint64_t P = 0xa5a5a5a5a5a5a5a5ull; uint64_t* w = (uint64_t*)stk; while (i < SZ / 8 && w[i] == P) i++;
    memset(stk + 8 * i, 0xa5, SZ - 8 * i); return SZ - 8 * i; }
int main(int argc, char** argv) {
    if (argc < 6) return 3;
    stk = (char*)mmap(nullptr, SZ + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(stk, 4096, PROT_NONE); stk += 4096; memset(stk, 0xa5, SZ);
    const char k = argv[1][0]; const int shard = atoi(argv[3]), ns = atoi(argv[4]); const long lim = atol(argv[5]); FILE* f = fopen(argv[2], "r"); if (!f) return 3;
    long n, states = 0, execs = 0, worst = 0, worstn = 0; char bes[8]; int line = 0;
    while (fscanf(f, "%ld %7s", &n, bes) == 2) { if (line++ % ns != shard) continue;
        std::vector<double> x(xlen(k, n) + 1), y(ylen(k, n) + 1);
        for (const char* q = bes; *q; q++) { const int b = *q == 's' ? 0 : *q == 'a' ? 1 : 2; const std::string at = std::string(1, k) + " " + BEN[b] + " N=" + S(n); printf("{\"at\": \"%s\"}\n", at.c_str()); fflush(stdout); states++;
            Inst* i = nullptr;
            for (int op = -2; op <= 8; op++) { if (op >= 0 && op < 8 && !has_op(k, op)) continue;
                if (op >= 0 && op < 8) input(k, n, op, 1, x.data(), y.data());
                job.i = &i; job.k = k; job.b = b; job.n = n; job.op = op; job.x = x.data(); job.y = y.data(); job.failed = false;
                const long d = depth(); execs++; const char* what = op == -2 ? "creation" : op == -1 ? "setup" : op == 8 ? "destruction" : OPN[op];
                if (job.failed) { report(at + ": exception in " + what, "stack|exception"); break; }
                if (d > worst) worst = d, worstn = n;
                if (d > lim) report(at + ": " + what + " uses " + S(d) + " bytes of stack", std::string("stack|") + what + "|" + k + BEN[b]);
            }
            if (g_nviol > 12) break; } if (g_nviol > 12) break; }
    printf("{\"states\": %ld, \"execs\": %ld, \"stack\": [%ld, %ld]}\n", states, execs, worst, worstn); return g_nviol ? 1 : 0;
}
