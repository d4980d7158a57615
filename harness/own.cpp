// C09: threads using their own instances, from the first library call of the process on (see DESIGN.md).
//   own SETS DEV ALLOCPOINTS TEAM SHARD NSHARDS      SETS: thread programs of the form KBn,KBn+KBn... per thread set separated by '/'
// Every execution runs in a process of its own; the scheduler explores all schedules with at most DEV deviations.
#include "inst.h"
#include "sched.h"
#include <sys/mman.h>
#include <signal.h>
struct Step { char kind; int be; int n; };
typedef std::vector<Step> Prog;
static uint64_t* res;   // shared results area
static void body(const Prog& p, int style, uint64_t* out) {
    int k = 0;
    for (auto& s : p) {
        const int n2 = style & 1 ? s.n : 2 * s.n;
        std::vector<double> x(xlen(s.kind, n2) + 1), y(ylen(s.kind, n2) + 1);
        auto use = [&](Inst& i, int n, int op) { input(s.kind, n, op, 1, x.data(), y.data()); i.run(op, x.data(), y.data()); out[k++] = hash(outp(s.kind, op, x.data(), y.data()), outn(s.kind, op, n)); };
        if (style & 1) { Inst i(s.kind, s.be, 0); i.setup(s.n); for (int op = 0; op < 8; op++) use(i, s.n, op); }
        else { Inst i(s.kind, s.be, s.n); for (int op = 0; op < 8; op += 2) use(i, s.n, op); i.setup(n2); for (int op = 1; op < 8; op += 2) use(i, n2, op); }
    }
    out[k++] = 0x600d;
}
struct Shared { int ndeg; int degree[1 << 15], taken[1 << 15]; int nprob; char prob[8][300]; bool deadlock, done; uint64_t out[4][64]; long events, accesses, switches; };
static Shared* sh;
int main(int argc, char** argv) {
    if (argc < 7) return 3;
    const int DEV = atoi(argv[2]); const bool apts = atoi(argv[3]); const int team = atoi(argv[4]); const int shard = atoi(argv[5]), ns = atoi(argv[6]); const long part = argc > 8 ? atol(argv[7]) : 0, parts = argc > 8 ? atol(argv[8]) : 1; long top = 0;
    sh = (Shared*)mmap(nullptr, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::vector<std::vector<Prog>> sets; 
    for (const char* s = argv[1]; *s;) { std::vector<Prog> set; Prog p;
        for (;;) { Step t; t.kind = s[0]; t.be = s[1] == 's' ? 0 : s[1] == 'a' ? 1 : s[1] == 'v' ? 2 : 3; s += 2; t.n = (int)strtol(s, (char**)&s, 10); p.push_back(t);
            if (*s == '+') { s++; continue; } set.push_back(p); p.clear(); if (*s == ',') { s++; continue; } break; }
        sets.push_back(set); if (*s == '/') s++; }
    long execs = 0, points = 0, nsets = 0, accesses = 0, switches = 0, maxpts = 0;
    for (size_t si = shard; si < sets.size(); si += ns) {
        auto& set = sets[si]; nsets++; std::string where; for (auto& p : set) { where += where.empty() ? "" : " || "; for (auto& s : p) where += std::string(1, s.kind) + BEN[s.be] + S(s.n) + " "; }
        auto child = [&](const std::vector<int>& ch, int alone) {     // alone: the reference, one program without the others
            memset(sh, 0, offsetof(Shared, degree)); sh->ndeg = sh->nprob = 0; sh->deadlock = sh->done = false; memset(sh->out, 0, sizeof sh->out);
            fflush(stdout); pid_t p = fork();
            if (!p) {
                alarm(60); sch::pol.teams = {alone >= 0 ? 1 : team}; sch::pol.max_threads = sch::pol.teams[0];
                std::vector<std::function<void()>> b; for (size_t i = 0; i < set.size(); i++) if (alone < 0 || (int)i == alone) b.push_back([&set, i] { body(set[i], (int)i, sh->out[i]); });
                auto t = sch::run_threads(b, ch, apts);
                sh->ndeg = (int)std::min<size_t>(t.degree.size(), 1 << 15); for (int i = 0; i < sh->ndeg; i++) { sh->degree[i] = t.degree[i]; sh->taken[i] = t.taken[i]; }
                for (auto& q : sch::problems) { if (sh->nprob < 8) snprintf(sh->prob[sh->nprob++], 300, "%s: %s in thread %d, %s in thread %d @%lx @%lx", q.kind, q.w1 ? "write" : "read", q.t1, q.w2 ? "write" : "read", q.t2, (long)q.pc1, (long)q.pc2); }
                sh->deadlock = t.deadlock; sh->events = sch::events; sh->accesses = sch::accesses; sh->switches = sch::switches; sh->done = true; _exit(0);
            }
            int st = 0; waitpid(p, &st, 0); return st;
        };
        printf("{\"at\": \"%s\"}\n", where.c_str()); fflush(stdout);
        static uint64_t ref[4][64];
        for (size_t i = 0; i < set.size(); i++) { int st = child({}, (int)i); if (!sh->done || st) { report(where + ": program " + S(i) + " alone fails (status " + S(st) + ")", where + "alone"); } memcpy(ref[i], sh->out[i], sizeof ref[i]); }
        bool bad = false;
        std::function<void(std::vector<int>, int)> explore = [&](std::vector<int> prefix, int devs) {
            if (bad) return;
            int st = child(prefix, -1); execs++;
            auto sched = [&] { std::string s; for (size_t i = 0; i < prefix.size(); i++) if (prefix[i]) s += " " + S(i) + ":" + S(prefix[i]); return s.empty() ? " none" : s; };
            if (!sh->done) { bad = true; report(where + ": execution does not end normally (status " + S(st) + "), deviations" + sched(), where + "crash"); return; }
            points += sh->ndeg; accesses += sh->accesses; switches += sh->switches; maxpts = std::max<long>(maxpts, sh->ndeg);
            for (int i = 0; i < sh->nprob; i++) { bad = true; report(where + ": " + sh->prob[i] + ", deviations" + sched(), where + "race"); }
            for (size_t i = 0; i < set.size(); i++) if (memcmp(ref[i], sh->out[i], sizeof ref[i])) { bad = true; report(where + ": thread " + S(i) + " gets other results than alone, deviations" + sched(), where + "result"); }
            if (devs >= DEV || bad) return;
            std::vector<int> deg(sh->degree, sh->degree + sh->ndeg), tk(sh->taken, sh->taken + sh->ndeg);
            for (size_t i = prefix.size(); i < deg.size(); i++) for (int c = 1; c < deg[i]; c++) { if (!devs && top++ % parts != part) continue; std::vector<int> p(tk.begin(), tk.begin() + i); p.push_back(c); explore(p, devs + 1); }
        };
        explore({}, 0);
    }
    printf("{\"sets\": %ld, \"execs\": %ld, \"points\": %ld, \"accesses\": %ld, \"switches\": %ld, \"maxpoints\": %ld}\n", nsets, execs, points, accesses, switches, maxpts);
    return 0;
}
