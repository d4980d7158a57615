// C07: memory confinement.  Every block the library owns and every array it is given lies against a guard page (behind or
// in front), input-only arrays are write-protected, fresh memory (heap, stack, output arrays) holds different patterns, and
// arrays take every alignment a double can have; results must be bit-identical in all configurations.
// usage: bounds KIND BACKENDS LENGTHS SHARD NSHARDS
#include "inst.h"
#include "alloc.h"
#include <sys/mman.h>
#include <signal.h>
static char kind; static long states = 0, trans = 0; static char cur[512];
static const size_t PG = 4096;
static char* g_lo[8]; static char* g_hi[8]; static const char* g_nm[8]; static int g_k = 0;
static void onsegv(int sig, siginfo_t* si, void*) {
    char b[1400]; const char* where = "memory that is not its own"; char* a = (char*)si->si_addr;
    for (int i = 0; i < g_k; i++) if (a >= g_lo[i] - PG && a < g_hi[i] + PG) where = a < g_lo[i] ? "memory before an argument array" : a >= g_hi[i] ? "memory behind an argument array" : "a write-protected input array";
    int n = snprintf(b, sizeof b, "{\"viol\": \"access to %s (signal %d): %s\", \"key\": \"fault:%c\"}\n", where, sig, cur, kind);
    if (write(1, b, n)) {} _exit(1);
}
// an array of n doubles: place 0 ends at a guard page, 1 starts at one; 2..4: off by 8, 16, 24 bytes from the guard page behind; 5: 8 bytes from the one before
struct Arr {
    char* map; size_t mapn, body; double* p; size_t n; int id;
    void make(size_t n_, int place, const char* nm) {
        n = n_; body = (n * 8 + 64 + PG - 1) / PG * PG; mapn = body + 2 * PG;
        map = (char*)mmap(nullptr, mapn, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (map == MAP_FAILED) _exit(3);
        mprotect(map + PG, body, PROT_READ | PROT_WRITE); memset(map + PG, 0x5a, body);
        char* lo = map + PG; char* hi = lo + body;
        if (place == 1) p = (double*)lo; else if (place == 5) p = (double*)(lo + 8); else p = (double*)(hi - n * 8 - (place == 0 ? 0 : (place - 1) * 8));
        id = g_k; g_lo[g_k] = lo; g_hi[g_k] = hi; g_nm[g_k] = nm; g_k++;
    }
    void protect() { mprotect(map + PG, body, PROT_READ); }
    void unprotect() { mprotect(map + PG, body, PROT_READ | PROT_WRITE); }
    bool canary() { for (unsigned char* q = (unsigned char*)map + PG; q < (unsigned char*)p; q++) if (*q != 0x5a) return false;
        for (unsigned char* q = (unsigned char*)(p + n); q < (unsigned char*)map + PG + body; q++) if (*q != 0x5a) return false; return true; }
    void drop() { munmap(map, mapn); g_k--; }
};
static void __attribute__((noinline)) paint(int pat) { volatile char b[98304]; mem::fillmem((void*)b, sizeof b, pat); asm volatile("" :: "r"(b) : "memory"); }
static void bad(const char* w) { report(std::string(w) + ": " + cur, std::string(w) + ":" + std::string(1, kind)); }
struct Conf { int guard, fill, px, py; };
int main(int argc, char** argv) {
    if (argc < 6) return 3;
    kind = argv[1][0]; auto L = ints(argv[3]); int shard = atoi(argv[4]), ns = atoi(argv[5]);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = onsegv; sa.sa_flags = SA_SIGINFO; sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0);
    // guard side x memory pattern x placement of the arrays
    std::vector<Conf> CF = { {1, 1, 0, 0}, {2, 2, 1, 1}, {1, 3, 2, 3}, {2, 4, 3, 4}, {1, 2, 4, 2}, {2, 3, 5, 5}, {1, 4, 1, 0}, {2, 1, 0, 1}, {1, 2, 3, 0}, {2, 4, 0, 5} };
    int idx = 0;
    for (const char* b = argv[2]; *b; b++) for (int n : L) {
        if (idx++ % ns != shard) continue;
        int be = *b == 's' ? 0 : *b == 'a' ? 1 : 2;
        uint64_t want[8] = {0}; bool have[8] = {0};
        for (size_t ci = 0; ci < CF.size(); ci++) {
            const Conf& f = CF[ci]; states++;
            mem::guard = f.guard; mem::fill = f.fill;
            snprintf(cur, sizeof cur, "%c %s N=%d setup (blocks %s a guard page, memory pattern %d)", kind, BEN[be], n, f.guard == 1 ? "before" : "behind", f.fill);
            Inst* I; paint(f.fill); { mem::Arm a; if (ci & 1) { I = new Inst(kind, be, 0); I->setup(n); } else I = new Inst(kind, be, n); }
            if (mem::bad_free) { bad(mem::bad_msg); mem::bad_free = 0; }
            for (int op = 0; op < 8; op++) {
                if (!has_op(kind, op)) continue;
                Arr x, y; x.make(xlen(kind, n), f.px, "x"); if (kind == 'R') y.make(ylen(kind, n), f.py, "y"); else y.p = nullptr;
                mem::fillmem(x.p, xlen(kind, n) * 8, f.fill); if (kind == 'R') mem::fillmem(y.p, ylen(kind, n) * 8, f.fill);
                input(kind, n, op, 1, x.p, y.p);
                snprintf(cur, sizeof cur, "%c %s N=%d %s (blocks %s a guard page, memory pattern %d, placement %d/%d)", kind, BEN[be], n, OPN[op], f.guard == 1 ? "before" : "behind", f.fill, f.px, f.py);
                const bool fr = kind == 'R' && op < 4; if (fr) x.protect();
                paint(f.fill);
                { mem::Arm a; I->run(op, x.p, y.p); } trans++;
                if (fr) x.unprotect();
                if (!x.canary() || (kind == 'R' && !y.canary())) bad("memory beside an argument array was written");
                uint64_t h = hash(outp(kind, op, x.p, y.p), outn(kind, op, n));
                if (!have[op]) { have[op] = true; want[op] = h; } else if (want[op] != h) bad("result depends on array placement or on uninitialised memory");
                if (kind == 'R') y.drop(); x.drop();
            }
            if (!mem::slack_ok()) bad("memory beside an own block was written");
            { mem::Arm a; delete I; }
            if (mem::bad_free) { bad(mem::bad_msg); mem::bad_free = 0; }
            mem::collect();
        }
    }
    printf("{\"states\": %ld, \"transitions\": %ld, \"configs\": %zu}\n", states, trans, CF.size());
    return g_nviol ? 1 : 0;
}
