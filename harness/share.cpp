// C14: one set-up instance used by several threads that each supply their own arrays (see DESIGN.md).
//   share SETS DEV TEAM THREADS OWN SHARD NSHARDS ROTS      SETS: KBn/KBn...  (K: R real FFT, F complex FFT with work array, E cosine transform with work arrays)
// OWN=1: one more thread meanwhile creates, uses, re-sets up and destroys an instance of its own of the same kind.
#include "inst.h"
#include "sched.h"
#include <sys/mman.h>
#include <signal.h>
#include <memory>
#ifdef INTERNAL
namespace OTFFT_MISC {}   // (only named by the header; its inline functions must come from the library)
#include "otfft_sse2.h"
#include "otfft_avx.h"
#include "otfft_avx2.h"
#endif
struct Sh { virtual ~Sh() {} virtual void setup(int n) = 0; virtual void run(int op, double* x, double* y, double* z) = 0; };
struct ShR : Sh { Inst i; ShR(int be, int n) : i('R', be, n) {} void setup(int n) { i.setup(n); } void run(int op, double* x, double* y, double*) { i.run(op, x, y); } };
#ifdef INTERNAL
template <class T> struct ShF : Sh { T f; ShF(int n) : f(n) {} void setup(int n) { f.setup(n); }
    void run(int op, double* a, double* b, double*) { complex_t* x = (complex_t*)a; complex_t* y = (complex_t*)b;
        switch (op) { case 0: f.fwd(x, y); break; case 1: f.fwd0(x, y); break; case 2: f.fwdu(x, y); break; case 3: f.fwdn(x, y); break; case 4: f.inv(x, y); break; case 5: f.inv0(x, y); break; case 6: f.invu(x, y); break; case 7: f.invn(x, y); break; } } };
template <class T> struct ShE : Sh { T f; ShE(int n) : f(n) {} void setup(int n) { f.setup(n); }
    void run(int op, double* x, double* y, double* c) { complex_t* z = (complex_t*)c;
        switch (op) { case 0: f.fwd(x, y, z); break; case 1: f.fwd0(x, y, z); break; case 3: f.fwdn(x, y, z); break; case 4: f.inv(x, y, z); break; case 5: f.inv0(x, y, z); break; case 7: f.invn(x, y, z); break; } } };
#endif
static Sh* make(char k, int be, int n) {
    if (k == 'R') return new ShR(be, n);
#ifdef INTERNAL
    if (k == 'F') { if (be == 0) return new ShF<OTFFT_SSE2::FFT0>(n); if (be == 1) return new ShF<OTFFT_AVX::FFT0>(n); return new ShF<OTFFT_AVX2::FFT0>(n); }
    if (k == 'E') { if (be == 0) return new ShE<OTFFT_SSE2::DCT0>(n); if (be == 1) return new ShE<OTFFT_AVX::DCT0>(n); return new ShE<OTFFT_AVX2::DCT0>(n); }
#endif
    fprintf(stderr, "kind %c\n", k); _exit(3);
}
static const char* kn(char k) { return k == 'R' ? "R" : k == 'F' ? "C" : "D"; }   // input conventions of the kind
static uint64_t once(Sh& s, char k, int n, int op) {
    const char c = *kn(k);
    std::vector<double> x(2 * n + 2), y(2 * n + 2), z(2 * n + 2); input(c, n, op, 1, x.data(), y.data()); s.run(op, x.data(), y.data(), z.data());
    return hash(outp(c, op, x.data(), y.data()), outn(c, op, n));
}
struct Shared { int ndeg; int degree[1 << 15], taken[1 << 15]; int nprob; char prob[8][300]; bool deadlock, done; uint64_t out[6][64]; long events, accesses, switches; };
static Shared* sh;
int main(int argc, char** argv) {
    if (argc < 9) return 3;
    const int DEV = atoi(argv[2]), team = atoi(argv[3]), NT = atoi(argv[4]), own = atoi(argv[5]), shard = atoi(argv[6]), ns = atoi(argv[7]);
    sh = (Shared*)mmap(nullptr, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    struct Set { char k; int be, n; }; std::vector<Set> sets;
    for (const char* s = argv[1]; *s;) { Set t; t.k = s[0]; t.be = s[1] == 's' ? 0 : s[1] == 'a' ? 1 : s[1] == 'v' ? 2 : 3; s += 2; t.n = (int)strtol(s, (char**)&s, 10); sets.push_back(t); if (*s == '/') s++; }
    long execs = 0, points = 0, nsets = 0, accesses = 0, switches = 0, maxpts = 0;
    for (size_t si = shard; si < sets.size(); si += ns) {
        const Set set = sets[si]; nsets++; const std::string where = std::string(set.k == 'R' ? "RealFFT " : set.k == 'F' ? "FFT0 " : "DCT0 ") + BEN[set.be] + " length " + S(set.n) + (own ? " + own instance" : "");
        // rot: where in the list of operations the threads start; a negative number runs only that program, single threaded
        auto child = [&](const std::vector<int>& ch, int rot, int alone) {
            memset(sh, 0, offsetof(Shared, degree)); sh->ndeg = sh->nprob = 0; sh->deadlock = sh->done = false; memset(sh->out, 0, sizeof sh->out);
            fflush(stdout); pid_t p = fork();
            if (!p) {
                alarm(120); sch::pol.teams = {alone >= 0 ? 1 : team}; sch::pol.max_threads = sch::pol.teams[0];
                std::unique_ptr<Sh> s(make(set.k, set.be, rot & 1 ? 0 : set.n)); if (rot & 1) s->setup(set.n);
                std::vector<std::function<void()>> b;
                for (int i = 0; i < NT + own; i++) if (alone < 0 || i == alone) b.push_back([&, i] {
                    uint64_t* o = sh->out[i];
                    if (i == NT) { std::unique_ptr<Sh> m(make(set.k, set.be, set.n)); o[0] = once(*m, set.k, set.n, 1); m->setup(2 * set.n); o[1] = once(*m, set.k, 2 * set.n, 5); m.reset(); o[2] = 1; return; }
                    for (int j = 0; j < 8; j++) { const int op = i % 2 ? (rot + 7 - j) % 8 : (rot + i / 2 + j) % 8; if (has_op(*kn(set.k), op)) o[op] = once(*s, set.k, set.n, op); }
                    o[8] = 0x600d;
                });
                auto t = sch::run_threads(b, ch, false);
                sh->ndeg = (int)std::min<size_t>(t.degree.size(), 1 << 15); for (int i = 0; i < sh->ndeg; i++) { sh->degree[i] = t.degree[i]; sh->taken[i] = t.taken[i]; }
                for (auto& q : sch::problems) { if (sh->nprob < 8) snprintf(sh->prob[sh->nprob++], 300, "%s: %s in thread %d, %s in thread %d @%lx @%lx", q.kind, q.w1 ? "write" : "read", q.t1, q.w2 ? "write" : "read", q.t2, (long)q.pc1, (long)q.pc2); }
                sh->deadlock = t.deadlock; sh->events = sch::events; sh->accesses = sch::accesses; sh->switches = sch::switches; sh->done = true; _exit(0);
            }
            int st = 0; waitpid(p, &st, 0); return st;
        };
        printf("{\"at\": \"%s\"}\n", where.c_str()); fflush(stdout);
        static uint64_t ref[6][64]; bool bad = false;
        for (int i = 0; i < NT + own && !bad; i++) { int st = child({}, 0, i); if (!sh->done || st) { bad = true; report(where + ": one thread alone fails (status " + S(st) + ")", where + "alone"); } memcpy(ref[i], sh->out[i], sizeof ref[i]); }
        std::function<void(std::vector<int>, int, int)> explore = [&](std::vector<int> prefix, int devs, int rot) {
            if (bad) return;
            int st = child(prefix, rot, -1); execs++;
            auto sched = [&] { std::string s; for (size_t i = 0; i < prefix.size(); i++) if (prefix[i]) s += " " + S(i) + ":" + S(prefix[i]); return S(rot) + ", deviations" + (s.empty() ? " none" : s); };
            if (!sh->done) { bad = true; report(where + ": execution does not end normally (status " + S(st) + "), first operation " + sched(), where + "crash"); return; }
            points += sh->ndeg; accesses += sh->accesses; switches += sh->switches; maxpts = std::max<long>(maxpts, sh->ndeg);
            for (int i = 0; i < sh->nprob; i++) { bad = true; report(where + ": " + sh->prob[i] + ", first operation " + sched(), where + "race"); }
            for (int i = 0; i < NT + own; i++) if (memcmp(ref[i], sh->out[i], sizeof ref[i])) { bad = true; report(where + ": thread " + S(i) + " gets other results than alone, first operation " + sched(), where + "result"); }
            if (devs >= DEV || bad) return;
            std::vector<int> deg(sh->degree, sh->degree + sh->ndeg), tk(sh->taken, sh->taken + sh->ndeg);
            for (size_t i = prefix.size(); i < deg.size(); i++) for (int c = 1; c < deg[i]; c++) { std::vector<int> p(tk.begin(), tk.begin() + i); p.push_back(c); explore(p, devs + 1, rot); }
        };
        for (int rot : ints(argv[8])) if (!bad) explore({}, 0, rot);
    }
    printf("{\"sets\": %ld, \"execs\": %ld, \"points\": %ld, \"accesses\": %ld, \"switches\": %ld, \"maxpoints\": %ld}\n", nsets, execs, points, accesses, switches, maxpts);
    return 0;
}
