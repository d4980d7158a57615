// C10 and C13: exhaustive allocation-failure points and lifecycle histories on the real library with an allocation ledger.
// usage: oom MODE KIND BACKENDS LENGTHS(comma list) SHARD NSHARDS [DEPTH]     MODE: oom | life | oomsweep | sweep
#include "inst.h"
#include "alloc.h"
#include <omp.h>
static char kind; static long states = 0, trans = 0, points = 0; static std::string cur;
static std::vector<double> X, Y;
static void at() { printf("{\"at\": \"%s\"}\n", jesc(cur).c_str()); fflush(stdout); }
static void bad(const std::string& what) { report(what + " -- " + cur, what + "|" + std::string(1, kind)); }
typedef std::vector<uint64_t> Res;
static bool runnable(int n) { return n > 0; }
static void room(int n) { if (X.size() < xlen(kind, n) + 2) X.resize(xlen(kind, n) + 2); if (Y.size() < ylen(kind, n) + 2) Y.resize(ylen(kind, n) + 2); }
static Res results(Inst& I) {
    Res r; if (!runnable(I.n)) return r;
    room(I.n);
    for (int op = 0; op < 8; op++) {
        if (!has_op(kind, op)) continue;
        input(kind, I.n, op, 1, X.data(), Y.data());
        { mem::Arm a; mem::reset_calls(); I.run(op, X.data(), Y.data()); }
        trans++;
        if (mem::calls || mem::frees) { bad(std::string("a transform acquired or released memory: ") + OPN[op] + " N=" + S(I.n)); }
        r.push_back(hash(outp(kind, op, X.data(), Y.data()), outn(kind, op, I.n)));
    }
    return r;
}
static void ledger(long live, long bytes, const char* when) {
    if (mem::bad_free) { bad(std::string(when) + ": " + mem::bad_msg); mem::bad_free = 0; }
    if (mem::live != live || mem::live_bytes != bytes)
        bad(std::string(when) + ": " + S(mem::live - live) + " blocks (" + S(mem::live_bytes - bytes) + " bytes) too many are still held");
}
template <class F> static int outcome(F f) {   // 0 returned, 1 bad_alloc, 2 other exception
    mem::Arm a; mem::reset_calls(); mem::failed = 0;
    try { f(); return 0; } catch (const std::bad_alloc&) { return 1; } catch (...) { return 2; }
}
static std::map<int, std::pair<Res, std::pair<long, long>>> REF[4];   // per backend: n -> results of a fresh instance, (blocks, bytes) it holds
static void ref(int be, int n) {
    if (REF[be].count(n)) return;
    Inst* I; { mem::Arm a; I = new Inst(kind, be, n); }
    std::pair<long, long> held(mem::live, mem::live_bytes);
    Res r = results(*I);
    { mem::Arm a; delete I; }
    ledger(0, 0, "after destruction"); mem::collect();
    REF[be][n] = {r, held};
}
static void oom(int be, const std::vector<int>& L, int shard, int ns) {
    int idx = 0;
    for (int n : L) ref(be, n);
    // scenario: -1 create(n); otherwise an instance of length `from` (0: created empty) that is set up to n
    for (int n : L) for (int s = -1; s < (int)L.size(); s++) {
        if (idx++ % ns != shard) continue;
        int from = s < 0 ? -1 : L[s];
        for (int persist = 0; persist < 2; persist++) for (long k = 0; ; k++) {
            cur = std::string(1, kind) + " " + BEN[be] + (from < 0 ? " create(" : " length " + S(from) + ", setup(") + S(n) + "), " + (persist ? "all allocations from #" : "allocation #") + S(k) + " fail" + (persist ? "" : "s");
            states++;
            // a bystander of the same kind and backend
            Inst* B; { mem::Arm a; B = new Inst(kind, be, L[(idx + k) % L.size()]); }
            Res rb = results(*B); long l0 = mem::live, b0 = mem::live_bytes;
            bool end = false;
            if (from < 0) {
                Inst* volatile I = nullptr; mem::fail_at = k; mem::fail_persist = persist;
                void* store = ::operator new(sizeof(Inst));
                int o = outcome([&] { I = new (store) Inst(kind, be, n); });
                mem::fail_at = -1;
                if (!mem::failed) { if (o) bad("creation failed without a failing allocation"); end = true; if (o == 0) { mem::Arm a; I->~Inst(); } ledger(l0, b0, "after destruction"); }
                else {
                    points++;
                    if (o == 2) bad("creation ended with an exception that is not std::bad_alloc");
                    if (o == 0) { bad("creation reported success although an allocation failed"); if (results(*I) != REF[be][n].first) bad("... and gives wrong results"); mem::Arm a; I->~Inst(); }
                    ledger(l0, b0, "after failed creation");
                }
                ::operator delete(store);
            } else {
                // after the failure: 0 destroy, 1 set up n again, 2 set up another length, 3 fail again (same point) then set up n, 4 set up empty then n
                for (int after = 0; after < 5 && !end; after++) {
                    Inst* I; { mem::Arm a; I = new Inst(kind, be, from); }
                    if (after == 1 && runnable(from)) results(*I);
                    mem::fail_at = k; mem::fail_persist = persist;
                    int o = outcome([&] { I->setup(n); });
                    mem::fail_at = -1;
                    if (!mem::failed) {
                        end = true; if (o) bad("setup failed without a failing allocation");
                        else if (runnable(n) && results(*I) != REF[be][n].first) bad("wrong results after setup");
                    } else {
                        points++;
                        if (o == 2) bad("setup ended with an exception that is not std::bad_alloc");
                        if (o == 0) { bad("setup reported success although an allocation failed"); }
                        if (after == 3) {
                            mem::fail_at = k; int o2 = outcome([&] { I->setup(n); }); mem::fail_at = -1;
                            if (mem::failed && o2 != 1) bad("second failed setup did not throw std::bad_alloc");
                        }
                        int m = after == 2 ? L[(s + 1) % L.size()] : n;
                        if (after == 4) { int o3 = outcome([&] { I->setup(0); }); if (o3) bad("setup(0) after a failed setup threw"); }
                        if (after) {
                            int o4 = outcome([&] { I->setup(m); });
                            if (o4) bad("setup after a failed setup threw");
                            else if (runnable(m)) {
                                if (results(*I) != REF[be][m].first) bad("after a failed setup, a new setup to " + S(m) + " gives other results than a fresh instance");
                                if (mem::live_bytes - b0 > REF[be][m].second.second) bad("after a failed setup, a new setup to " + S(m) + " holds more memory than a fresh instance");
                            }
                        }
                    }
                    { mem::Arm a; delete I; }
                    ledger(l0, b0, "after failed setup and destruction");
                }
            }
            if (results(*B) != rb) bad("another instance changed its results");
            { mem::Arm a; delete B; }
            ledger(0, 0, "after destruction of all instances");
            mem::live = mem::live_bytes = 0; mem::collect();
            if (end || k > 4000) break;
        }
        at();
    }
}
// lifecycle: all sequences of the given depth over {create(n), setup(n), all transforms, destroy} on two instances
struct Slot { Inst* i = nullptr; int n = 0; };
static void life(int be, const std::vector<int>& L, int depth, int shard, int ns) {
    for (int n : L) ref(be, n);
    const int A = (int)L.size();
    // action a: 0..A-1 (re)create slot 0 with L[a];  A..2A-1 set up slot 0;  2A..3A-1 create/set up slot 1;  3A run slot 0;  3A+1 destroy slot 0;  3A+2 destroy slot 1; 3A+3 move of the owning pointer
    const int K = 3 * A + 4; long total = 1; for (int i = 0; i < depth; i++) total *= K;
    for (long code = shard; code < total; code += ns) {
        Slot s[2]; cur = std::string(1, kind) + " " + BEN[be] + ":"; states++;
        long c = code; bool ok = true;
        for (int i = 0; i < depth && ok; i++, c /= K) {
            int a = (int)(c % K); trans++;
            int o = 0, n = a < 3 * A ? L[a % A] : 0;
            if (a < A) cur += " create0(" + S(n) + ")"; else if (a < 2 * A) cur += " setup0(" + S(n) + ")"; else if (a < 3 * A) cur += " set1(" + S(n) + ")";
            else cur += a == 3 * A ? " run0" : a == 3 * A + 1 ? " destroy0" : a == 3 * A + 2 ? " destroy1" : " move0";
            if (a == 3 * A) { if (s[0].i && s[0].n > 0 && results(*s[0].i) != REF[be][s[0].n].first) bad("wrong results"); continue; }
            try {
                mem::Arm arm;
                if (a < A) { delete s[0].i; s[0].i = nullptr; s[0].i = new Inst(kind, be, n); s[0].n = n; }
                else if (a < 2 * A) { if (!s[0].i) s[0].i = new Inst(kind, be, 0); s[0].i->setup(n); s[0].n = n; }
                else if (a < 3 * A) { if (!s[1].i) s[1].i = new Inst(kind, be, n); else s[1].i->setup(n); s[1].n = n; }
                else if (a == 3 * A + 1) { delete s[0].i; s[0].i = nullptr; }
                else if (a == 3 * A + 2) { delete s[1].i; s[1].i = nullptr; }
                else if (s[0].i) { Inst* m = new Inst(std::move(*s[0].i)); delete s[0].i; s[0].i = m; }
            } catch (...) { o = 1; }
            if (o) { bad("exception in a lifecycle history"); ok = false; }
            if (mem::bad_free) { bad(mem::bad_msg); mem::bad_free = 0; }
        }
        // what a history leaves held is what fresh instances of the same lengths hold (setup(0) of a Bluestein instance is a no-op)
        long want = 0, wb = 0; bool cmp = true;
        for (auto& q : s) if (q.i) { if (kind == 'B' && q.n == 0) { cmp = false; continue; } auto& h = REF[be][q.n].second; want += h.first; wb += h.second; }
        if (ok && cmp && (mem::live_bytes > wb || mem::live > want)) bad("history holds " + S(mem::live) + " blocks/" + S(mem::live_bytes) + " bytes, fresh instances of these lengths hold " + S(want) + "/" + S(wb));
        { mem::Arm a; delete s[0].i; delete s[1].i; }
        ledger(0, 0, "after destruction of all instances");
        mem::live = mem::live_bytes = 0; mem::collect();
        if (code % 512 == shard) at();
    }
}
// long repetition: memory held after k rounds is the same as after the first
static void grow(int be, const std::vector<int>& L, int rounds) {
    cur = std::string(1, kind) + " " + BEN[be] + " repeated setups"; at();
    Inst* I; { mem::Arm a; I = new Inst(kind, be, L[0]); }
    long first = -1, fb = 0;
    for (int r = 0; r < rounds; r++) {
        { mem::Arm a; for (int n : L) I->setup(n); }
        trans += L.size(); if (mem::bad_free) { bad(mem::bad_msg); mem::bad_free = 0; }
        if (first < 0) { first = mem::live; fb = mem::live_bytes; }
        if (mem::live > first || mem::live_bytes > fb) { bad("memory grows with every round of setups"); break; }
        mem::collect();
    }
    states++;
    { mem::Arm a; delete I; }
    ledger(0, 0, "after destruction"); mem::collect();
}
// every length of the list on its own: created, run, destroyed; created empty, set up twice, run, set up to the next one
static void sweep(int be, const std::vector<int>& L, int shard, int ns) {
    for (size_t i = shard; i < L.size(); i += ns) { const int n = L[i], m = L[(i + ns) % L.size()]; ref(be, n); if (m < (1 << 18)) ref(be, m);
        cur = std::string(1, kind) + " " + BEN[be] + " create(" + S(n) + ") run setup(0)"; at(); states += 2; trans += 4;
        auto holds = [&](int k) { auto& h = REF[be][k].second; if (mem::live > h.first || mem::live_bytes > h.second) bad("history holds " + S(mem::live) + " blocks/" + S(mem::live_bytes) + " bytes, a fresh instance holds " + S(h.first) + "/" + S(h.second)); };
        Inst* I; { mem::Arm a; I = new Inst(kind, be, n); } if (n < (1 << 18) && results(*I) != REF[be][n].first) bad("wrong results"); { mem::Arm a; delete I; } ledger(0, 0, "after destruction"); mem::collect();
        cur = std::string(1, kind) + " " + BEN[be] + " create(0) setup(" + S(n) + ") setup(" + S(n) + ") setup(" + S(m) + ")";
        { mem::Arm a; I = new Inst(kind, be, 0); I->setup(n); I->setup(n); } holds(n); if (m < (1 << 18)) { { mem::Arm a; I->setup(m); } holds(m); if (results(*I) != REF[be][m].first) bad("wrong results"); }
        { mem::Arm a; delete I; } ledger(0, 0, "after destruction"); mem::live = mem::live_bytes = 0; mem::collect();
    }
}
int main(int argc, char** argv) {
    if (argc < 7) return 3;
    kind = argv[2][0]; auto L = ints(argv[4]); int shard = atoi(argv[5]), ns = atoi(argv[6]);
    mem::fill = 2; X.resize(64); Y.resize(64);
    for (int n : L) room(n);                 // no harness reallocation while armed
    for (const char* b = argv[3]; *b; b++) {
        int be = *b == 's' ? 0 : *b == 'a' ? 1 : *b == 'v' ? 2 : 3;
        if (!strcmp(argv[1], "sweep")) sweep(be, L, shard, ns);
        else if (!strcmp(argv[1], "oomsweep")) { for (size_t i = shard; i < L.size(); i += ns) { oom(be, {L[i]}, 0, 1); REF[be].clear(); } }
        else if (!strcmp(argv[1], "oom")) oom(be, L, shard, ns);
        else { if (shard == 0) grow(be, L, 20); life(be, L, atoi(argv[7]), shard, ns); }
    }
    printf("{\"states\": %ld, \"transitions\": %ld, \"points\": %ld}\n", states, trans, points);
    return g_nviol ? 1 : 0;
}
