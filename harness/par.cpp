// C08: transforms and setups under a controlled parallel runtime (see DESIGN.md).
//   par MODE(race|bits) KIND BACKENDS LENGTHS MAXPOL OPS(all|few)
#include "inst.h"
#ifdef REAL      // the same histories under the real OpenMP runtime
#include <omp.h>
namespace sch { struct Policy { std::vector<int> teams{1}; int max_threads = 8, rot = 0, exec = -1, dev = -1, exec2 = 0; bool rev = false, chunks = false, cyclic = false; };
 struct Problem { const char* kind; uintptr_t pc1, pc2; int t1, t2; bool w1, w2; }; std::vector<Problem> problems; long regions, barriers, singles, switches, accesses; int max_team_seen; void begin() {}
 struct Setter { Setter& operator=(const Policy& p) { int t = p.teams[0]; omp_set_dynamic(0); omp_set_num_threads(t); if (t > max_team_seen) max_team_seen = t; if (t > 1) regions++; return *this; } } pol; }
#else
#include "sched.h"
#endif
#include <ctime>
struct Pol { std::string name; sch::Policy setup, op; };
static sch::Policy mk(std::vector<int> teams, int rot = 0, bool rev = false, int exec = -1, bool cyc = false) {
    sch::Policy p; p.teams = teams; p.max_threads = *std::max_element(teams.begin(), teams.end()); p.rot = rot; p.rev = rev; p.exec = exec; p.cyclic = cyc; p.chunks = rev; return p;
}
static std::vector<Pol> policies(int level, bool wide) {
    std::vector<Pol> v;
    auto uni = [&](int T, int rot, bool rev, int exec) { sch::Policy p = mk({T}, rot, rev, exec); v.push_back({"team " + S(T) + " first " + S(rot) + (rev ? " descending" : " ascending") + " single by " + S(exec), p, p}); };
    auto mixd = [&](int a, int b, bool rev) { v.push_back({"setup team " + S(a) + " transform team " + S(b), mk({a}, a - 1, rev), mk({b}, 0, rev)}); };
    auto alt = [&](std::vector<int> t, bool rev) { std::string s; for (int x : t) s += " " + S(x); v.push_back({"teams per region" + s, mk(t, 0, rev, -1, true), mk(t, 1, rev, -1, true)}); };
    uni(2, 1, true, -1); uni(3, 0, false, 2);
    if (level >= 1) { uni(8, 7, true, 0); mixd(4, 2, false); alt({3, 1, 2}, true); uni(17, 5, false, 16); }
    if (wide && level >= 1) { uni(33, 32, true, 20); uni(130, 7, false, 129); }
    if (level >= 2) { uni(2, 0, false, 1); uni(2, 1, false, 0); for (int r = 0; r < 3; r++) { uni(3, r, true, r); if (r) uni(3, r, false, (r + 1) % 3); } uni(4, 1, false, 3); uni(5, 2, true, 1); uni(7, 3, false, -1); mixd(1, 3, true); mixd(5, 1, false); mixd(2, 6, true); alt({1, 3}, false); alt({2, 5, 3}, true); }
    if (level >= 3) { for (int T : {6, 9, 11, 13, 16, 24, 31, 32, 48, 64}) { uni(T, T - 1, true, T / 2); uni(T, T / 3, false, T - 1); } mixd(8, 3, true); mixd(3, 8, false); for (int e = 0; e < 8; e++) uni(8, e, e & 1, (e + 3) % 8); }
    return v;
}
int main(int argc, char** argv) {
    if (argc < 7) return 3;
    const bool racem = !strcmp(argv[1], "race"); const char kind = argv[2][0]; const std::string bes = argv[3]; auto L = ints(argv[4]); const int level = atoi(argv[5]); const bool all = !strcmp(argv[6], "all");
    auto P = policies(level, !racem); long states = 0, cases = 0, maxT = 0; sch::begin(); long zones = 0; std::map<std::string, int> seen;
    for (char b : bes) { const int be = b == 's' ? 0 : b == 'a' ? 1 : 2;
    for (int n : L) {
        const size_t xn = xlen(kind, n), yn = ylen(kind, n);
        std::vector<double> x(xn + 1), y(yn + 1), x0(xn + 1), y0(yn + 1);
        std::map<int, std::vector<double>> ref; long nsing = 0;
        auto go = [&](const Pol& p, bool first) {
            sch::begin(); const long s0 = sch::singles, r0 = sch::regions;
            sch::pol = p.setup; Inst i(kind, be, n);
            std::string where = std::string(1, kind) + " " + BEN[be] + " N=" + S(n);
            auto probs = [&](const std::string& what) {
                for (auto& q : sch::problems) {
                    char k[200]; snprintf(k, sizeof k, "%lx %lx", (long)q.pc1, (long)q.pc2); std::string key = where + what + q.kind;
                    if (seen[std::string(q.kind) + k]++ == 0 && g_nviol < 12) { char t[400]; snprintf(t, sizeof t, "%s: %s, %s: %s in thread %d, %s in thread %d @%lx @%lx", where.c_str(), what.c_str(), q.kind, q.w1 ? "write" : "read", q.t1, q.w2 ? "write" : "read", q.t2, (long)q.pc1, (long)q.pc2); report(std::string(t) + " (" + p.name + ")", key); }
                }
                sch::problems.clear();
            };
            printf("{\"at\": \"%s %s\"}\n", where.c_str(), p.name.c_str()); fflush(stdout);
            probs("create");
            for (int op = 0; op < 8; op++) { if (!has_op(kind, op)) continue; if (!all && op != 1 && op != 4 && op != (int)(n % 8) && op != (int)(be + 2)) continue;
                input(kind, n, op, 1, x.data(), y.data()); sch::pol = p.op;
                i.run(op, x.data(), y.data());
                probs(OPN[op]);
                double* o = outp(kind, op, x.data(), y.data()); size_t on = outn(kind, op, n);
                if (first) ref[op].assign(o, o + on);
                else if (memcmp(o, ref[op].data(), on * sizeof(double))) { size_t k = 0; while (!memcmp(&o[k], &ref[op][k], 8)) k++;
                    report(where + " " + OPN[op] + ": result differs from the one-thread result at element " + S(k) + " (" + p.name + ")", where + OPN[op]); }
                cases++;
            }
            sch::pol = p.setup; i.setup(n); probs("setup again");
            states++; maxT = std::max<long>(maxT, sch::max_team_seen); nsing = sch::singles - s0; (void)r0;
        };
        Pol one{"one thread", mk({1}), mk({1})}; go(one, true);
        const long r0 = sch::regions;
        for (auto& p : P) go(p, false);
        if (sch::regions > r0) zones++;
        // every single block of the execution given to another member than the rest
        if (level >= 2 && nsing) { for (int T = 2; T <= 3; T++) for (long d = 0; d < nsing / 2 + 1 && d < 64; d++) for (int e = 1; e < T; e++) { Pol p{"team " + S(T) + " single " + S(d) + " by " + S(e), mk({T}, 0, false, 0), mk({T}, 0, false, 0)}; p.setup.dev = p.op.dev = d; p.setup.exec2 = p.op.exec2 = e; go(p, false); } }
    } }
    printf("{\"states\": %ld, \"cases\": %ld, \"regions\": %ld, \"barriers\": %ld, \"singles\": %ld, \"switches\": %ld, \"accesses\": %ld, \"maxteam\": %ld, \"parallel_lengths\": %ld}\n", states, cases, sch::regions, sch::barriers, sch::singles, sch::switches, sch::accesses, maxT, zones);
    return 0;
}
