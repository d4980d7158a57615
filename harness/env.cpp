// C15: calls neither change nor depend on the caller's execution environment (see DESIGN.md).
//   env KIND BE LENGTHS FPENVS ICVS      FPENVS: list of codes 0..63 (rounding 0-3, +4 FTZ, +8 DAZ, +16 invalid/divide/overflow unmasked, +32 x87 rounding and precision changed)
//                                        ICVS: list of codes 0..23 (team size 1,2,5 by %3; then dynamic, max-active-levels, schedule bits)
#include "inst.h"
#include <omp.h>
#include <xmmintrin.h>
#include <signal.h>
#include <sched.h>
#include <clocale>
#include <cmath>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <fcntl.h>
#include <dirent.h>
extern char** environ;
static unsigned short x87() { unsigned short c; __asm__ volatile("fnstcw %0" : "=m"(c)); return c; }
static void setx87(unsigned short c) { __asm__ volatile("fldcw %0" :: "m"(c)); }
static unsigned long flags() { unsigned long f; __asm__ volatile("pushfq\n pop %0" : "=r"(f)); return f; }
struct Env {     // everything a caller may have set and relies on
    unsigned mxcsr, x87cw, df; int nthreads, dyn, levels, sk, schunk, nested; unsigned wk[64]; int nwk;
    sigset_t mask; uint64_t handlers, env, locale, cwd; cpu_set_t cpus; mode_t um; int prio; int fds; long out; rlim_t lim[4];
};
static void own_handler(int g) { signal(g, SIG_DFL); raise(g); }
static int outfd = -1;
static uint64_t hs(const char* s) { uint64_t h = 5381; while (s && *s) h = h * 33 + (unsigned char)*s++; return h; }
static void look(Env& e, bool full) {
    e.mxcsr = _mm_getcsr() & ~0x3fu; e.x87cw = x87(); e.df = flags() & 0x40400;
    e.nthreads = omp_get_max_threads(); e.dyn = omp_get_dynamic(); e.levels = omp_get_max_active_levels(); omp_sched_t k; omp_get_schedule(&k, &e.schunk); e.sk = (int)k; 
    pthread_sigmask(SIG_SETMASK, nullptr, &e.mask);
    struct stat st; fstat(outfd, &st); e.out = st.st_size;
    if (!full) return;
    e.handlers = 0; for (int s = 1; s < 32; s++) { struct sigaction a; if (!sigaction(s, nullptr, &a)) e.handlers = e.handlers * 31 + (uint64_t)a.sa_handler; }
    e.env = 0; for (char** p = environ; *p; p++) e.env = e.env * 31 + hs(*p);
    e.locale = hs(setlocale(LC_ALL, nullptr)); char b[4096]; e.cwd = hs(getcwd(b, sizeof b));
    CPU_ZERO(&e.cpus); sched_getaffinity(0, sizeof e.cpus, &e.cpus); e.um = umask(0); umask(e.um); e.prio = getpriority(PRIO_PROCESS, 0);
    e.fds = 0; for (int i = 0; i < 64; i++) if (fcntl(i, F_GETFD) >= 0) e.fds++;
    int r = 0; for (int w : {RLIMIT_STACK, RLIMIT_AS, RLIMIT_CORE, RLIMIT_NOFILE}) { rlimit l; getrlimit(w, &l); e.lim[r++] = l.rlim_cur; }
    // the control words of the team's threads
    e.nwk = 0; memset(e.wk, 0, sizeof e.wk);
    #pragma omp parallel
    { const int t = omp_get_thread_num(); if (t < 64) e.wk[t] = (_mm_getcsr() & ~0x3fu) | (unsigned)x87() << 16;
      #pragma omp single
      e.nwk = omp_get_num_threads(); }
}
static const char* differ(const Env& a, const Env& b, bool full) {
    if (a.mxcsr != b.mxcsr) return "the floating-point control word (rounding, denormal handling or exception masks) of the calling thread";
    if (a.x87cw != b.x87cw) return "the x87 control word of the calling thread";
    if (a.df != b.df) return "the direction/alignment flag";
    if (a.nthreads != b.nthreads) return "the number of OpenMP threads"; if (a.dyn != b.dyn) return "the OpenMP dynamic setting"; if (a.levels != b.levels) return "the OpenMP nesting setting";
    if (a.sk != b.sk || a.schunk != b.schunk) return "the OpenMP run-time schedule";
    if (memcmp(&a.mask, &b.mask, sizeof a.mask)) return "the signal mask"; if (a.out != b.out) return "the contents of standard output or standard error";
    if (!full) return nullptr;
    if (a.handlers != b.handlers) return "a signal handler"; if (a.env != b.env) return "the environment variables"; if (a.locale != b.locale) return "the locale"; if (a.cwd != b.cwd) return "the working directory";
    if (memcmp(&a.cpus, &b.cpus, sizeof a.cpus)) return "the processor affinity"; if (a.um != b.um) return "the file mode mask"; if (a.prio != b.prio) return "the priority"; if (a.fds != b.fds) return "the open file descriptors";
    if (memcmp(a.lim, b.lim, sizeof a.lim)) return "a resource limit";
    if (!a.dyn && !b.dyn && a.nwk == b.nwk && memcmp(a.wk, b.wk, sizeof a.wk)) return "the floating-point control word of a team thread";
    return nullptr;
}
struct Shared { int stage; char viol[400]; long calls, compared; double err; };
static Shared* sh;
static uint64_t refh[64][8][2]; static std::vector<double> refv[64][8];
int main(int argc, char** argv) {
    if (argc < 6) return 3;
    const char kind = argv[1][0]; const int be = atoi(argv[2]); const std::vector<int> L = ints(argv[3]), FP = ints(argv[4]), IC = ints(argv[5]);
    sh = (Shared*)mmap(nullptr, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    static const char* ST[] = {"creation", "setup", "second setup", "fwd", "fwd0", "fwdu", "fwdn", "inv", "inv0", "invu", "invn", "destruction"};
    char tmp[] = "/tmp/envXXXXXX"; outfd = mkstemp(tmp); if (outfd < 0) return 3; unlink(tmp);
    long envs = 0, calls = 0, compared = 0; double worst = 0;
    const size_t nmax = 2 * (size_t)*std::max_element(L.begin(), L.end()) + 8;
    double* const X = (double*)mmap(nullptr, nmax * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    double* const Y = (double*)mmap(nullptr, nmax * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    // results of the default environment; one slot per length and operation, kept in shared memory
    std::vector<std::vector<double*>> ref(L.size(), std::vector<double*>(8)); 
    for (size_t i = 0; i < L.size(); i++) for (int op = 0; op < 8; op++) ref[i][op] = (double*)mmap(nullptr, (2 * L[i] + 8) * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    auto child = [&](int li, int fp, int ic, bool isref) {
        const int n = L[li]; sh->stage = 0; sh->viol[0] = 0; sh->calls = sh->compared = 0; sh->err = 0;
        fflush(stdout); pid_t p = fork();
        if (!p) {
            alarm(300); dup2(outfd, 1); dup2(outfd, 2);
            for (int op = 0; op < 8; op++) input(kind, n, op, 1, X, Y);   // touch the pages
            omp_set_num_threads(ic % 3 == 0 ? 1 : ic % 3 == 1 ? 2 : 5); omp_set_dynamic(ic / 3 & 1); omp_set_max_active_levels(ic / 6 & 1 ? 3 : 1); if (ic / 12 & 1) omp_set_schedule(omp_sched_dynamic, 7); else omp_set_schedule(omp_sched_static, 0);
            sigset_t m; sigemptyset(&m); sigaddset(&m, SIGUSR2); if (ic & 1) sigaddset(&m, SIGILL); pthread_sigmask(SIG_BLOCK, &m, nullptr); signal(SIGUSR1, SIG_IGN); for (int g : {SIGILL, SIGSEGV, SIGBUS, SIGTRAP, SIGABRT, SIGTERM, SIGINT, SIGHUP, SIGPIPE, SIGCHLD, SIGQUIT, SIGXCPU, SIGVTALRM, SIGPROF}) signal(g, own_handler);
            unsigned c = 0x1f80u | (fp & 3) << 13 | (fp & 4 ? 0x8000u : 0) | (fp & 8 ? 0x40u : 0); if (fp & 16) c &= ~(0x80u | 0x200u | 0x400u);
            if (fp & 32) setx87(0x037f & ~0x0300 | 0x0800 | 0x0200); _mm_setcsr(c);
            Env a, b; memset(&a, 0, sizeof a); memset(&b, 0, sizeof b); look(a, true); look(a, true);   // (the second time with the team threads in place)
            std::string what;
            auto check = [&](bool full) { sh->calls++; look(b, full); const char* d = differ(a, b, full); if (d && !sh->viol[0]) { _mm_setcsr(0x1f80); snprintf(sh->viol, sizeof sh->viol, "%s changes %s", ST[sh->stage], d); _exit(0); } };
            {
                Inst i(kind, be, fp & 1 ? n : 0); sh->stage = 0; check(true);
                sh->stage = 1; i.setup(n); check(true);
                sh->stage = 2; i.setup(2 * n); check(false); i.setup(n); check(false);
                for (int op = 0; op < 8; op++) if (has_op(kind, op)) {
                    _mm_setcsr(0x1f80); input(kind, n, op, 1, X, Y); _mm_setcsr(c);
                    sh->stage = 3 + op; i.run(op, X, Y); check(op % 4 == 2);
                    double* o = outp(kind, op, X, Y); const size_t m = outn(kind, op, n);
                    _mm_setcsr(0x1f80);
                    if (isref) memcpy(ref[li][op], o, m * 8);
                    else {
                        double e = 0, q = 0; for (size_t k = 0; k < m; k++) { double d = o[k] - ref[li][op][k]; e += d * d; q += ref[li][op][k] * ref[li][op][k]; }
                        e = q > 0 ? std::sqrt(e / q) : std::sqrt(e); sh->compared++; if (e > sh->err) sh->err = e;
                        if (!(e < 2e-14 * (2 + std::log2(n + 1.0)) * (kind == 'B' ? 8 : 1))) { snprintf(sh->viol, sizeof sh->viol, "%s gives other results than in the default environment (relative deviation %g)", ST[sh->stage], e); _exit(0); }
                        if (!(fp & 3) && memcmp(o, ref[li][op], m * 8)) { snprintf(sh->viol, sizeof sh->viol, "%s gives other bits than in the default environment although rounding is the same (relative deviation %g)", ST[sh->stage], e); _exit(0); }
                    }
                    _mm_setcsr(c);
                }
                sh->stage = 11;
            }
            check(true); _exit(0);
        }
        int st = 0; waitpid(p, &st, 0); return st;
    };
    for (size_t li = 0; li < L.size(); li++) {
        auto name = [&](int fp, int ic) { return std::string(1, kind) + " " + BEN[be] + " length " + S(L[li]) + " environment " + S(fp) + "/" + S(ic); };
        printf("{\"at\": \"%s\"}\n", name(0, 0).c_str()); fflush(stdout);
        int st = child((int)li, 0, 0, true);
        if (st) { report(name(0, 0) + ": fails in the default environment (status " + S(st) + ") at " + ST[sh->stage], name(0, 0)); continue; }
        if (sh->viol[0]) { report(name(0, 0) + ": " + sh->viol, name(0, 0) + sh->viol); continue; }
        bool bad = false;
        for (int fp : FP) for (int ic : IC) if (!bad) {
            st = child((int)li, fp, ic, false); envs++; calls += sh->calls; compared += sh->compared; worst = std::max(worst, sh->err);
            if (st) { bad = true; report(name(fp, ic) + ": " + (WIFSIGNALED(st) && WTERMSIG(st) == SIGFPE ? "floating-point exception" : "abnormal end (status " + S(st) + ")") + " in " + ST[sh->stage], name(fp, ic) + "crash"); }
            else if (sh->viol[0]) { bad = true; report(name(fp, ic) + ": " + sh->viol, name(fp, ic) + sh->viol); }
        }
    }
    printf("{\"envs\": %ld, \"calls\": %ld, \"compared\": %ld, \"worst\": %g}\n", envs, calls, compared, worst);
    return 0;
}
