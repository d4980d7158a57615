// C06: bounded exhaustive histories; every transform result is compared, bit for bit, with that of a fresh instance in a fresh process.
// usage: hist MODE KIND BACKENDS LENGTHS SHARD NSHARDS DEPTH FILL     MODE: chain | ops | two | near
#include "inst.h"
#include "alloc.h"
static long states = 0, trans = 0; static std::string cur;
static std::vector<double> X, Y;
typedef std::tuple<char, int, int, int, int> Key;    // kind, backend, n, op, input
static std::map<Key, uint64_t> REF;
static uint64_t eval(Inst& I, int op, int id) {
    input(I.kind, I.n, op, id, X.data(), Y.data());
    { mem::Arm a; I.run(op, X.data(), Y.data()); }
    trans++; return hash(outp(I.kind, op, X.data(), Y.data()), outn(I.kind, op, I.n));
}
static Inst* make(char k, int be, int n) { mem::Arm a; return new Inst(k, be, n); }
static void del(Inst*& i) { mem::Arm a; delete i; i = nullptr; }
// first call and only call of a fresh process on a fresh instance
static void refs(char kind, int be, int n, int ids) {
    if (n < 1) return;
    size_t need = std::max(xlen(kind, n), ylen(kind, n)) + 2; if (X.size() < need) X.resize(need); if (Y.size() < need) Y.resize(need);
    for (int op = 0; op < 8; op++) if (has_op(kind, op)) for (int id = 0; id < ids; id++) {
        if (REF.count(Key(kind, be, n, op, id))) continue;
        int p[2]; if (pipe(p)) _exit(3); fflush(stdout);
        pid_t c = fork(); if (c < 0) _exit(3);
        if (!c) { mem::fill = 0; Inst* I = new Inst(kind, be, n); uint64_t h = eval(*I, op, id); if (write(p[1], &h, 8) != 8) _exit(3); _exit(0); }
        close(p[1]); uint64_t h = 0; ssize_t g = read(p[0], &h, 8); close(p[0]); int st; waitpid(c, &st, 0);
        if (g != 8) { report(std::string("fresh instance crashed: ") + kind + " " + BEN[be] + " N=" + S(n) + " " + OPN[op], "fresh-crash"); _exit(1); }
        REF[Key(kind, be, n, op, id)] = h;
    }
}
static bool expect(Inst& I, int op, int id) {
    if (I.n < 1 || !has_op(I.kind, op)) return true;
    uint64_t h = eval(I, op, id);
    if (h == REF[Key(I.kind, I.be, I.n, op, id)]) return true;
    report(std::string("result differs from a fresh instance: ") + I.kind + " " + BEN[I.be] + " N=" + S(I.n) + " " + OPN[op] + " input " + S(id) + " after:" + cur, std::string("hist:") + I.kind + ":" + S(I.n));
    return false;
}
static void at() { printf("{\"at\": \"%s\"}\n", jesc(cur).c_str()); fflush(stdout); }
static bool allops(Inst& I, int id) { bool ok = true; for (int op = 0; op < 8 && ok; op++) ok = expect(I, op, id); return ok; }

// create(a), [all ops], setup(b), [all ops], ... : all length sequences of the given depth, each with and without use in between
static void chain(char kind, int be, const std::vector<int>& L, int depth, int shard, int ns) {
    long total = 1; for (int i = 0; i < depth; i++) total *= L.size();
    for (long code = 0; code < total; code++) for (int use = 0; use < 2; use++) {
        if ((code * 2 + use) % ns != shard) continue;
        long c = code; cur = std::string(" ") + kind + " " + BEN[be]; Inst* I = nullptr; states++; bool ok = true;
        for (int i = 0; i < depth && ok; i++, c /= L.size()) {
            int n = L[c % L.size()];
            if (!I) { cur += " create(" + S(n) + ")"; I = make(kind, be, n); } else { cur += " setup(" + S(n) + ")"; mem::Arm a; I->setup(n); }
            if (states % 64 == 1) at();
            // in the last position always run; in between one forward and one inverse transform if `use`
            if (i == depth - 1) { ok = allops(*I, 0); if (ok && depth < 3) ok = allops(*I, 1); }
            else if (use) { cur += " run"; ok = expect(*I, (i * 3 + 1) % 8 == 2 || (i * 3 + 1) % 8 == 6 ? 0 : (i * 3 + 1) % 8, 1) && expect(*I, 4, 0); }
        }
        del(I); mem::collect();
    }
}
// every length n of a contiguous range, set up on an instance that had another length: the neighbours, the double, half and
// triple, lengths with the same padding, n itself, none; each with and without use before.  References: a process per length.
static void near(char kind, int be, const std::vector<int>& L, int shard, int ns) {
    for (size_t i = shard; i < L.size(); i += ns) {
        const int n = L[i], st = kind == 'B' ? 1 : 2;
        size_t need = 3 * std::max(xlen(kind, n), ylen(kind, n)) + 200; if (X.size() < need) X.resize(need); if (Y.size() < need) Y.resize(need);
        int p[2]; if (pipe(p)) _exit(3); fflush(stdout); uint64_t h[16] = {};
        pid_t c = fork(); if (c < 0) _exit(3);
        if (!c) { for (int op = 0; op < 8; op++) for (int id = 0; id < 2; id++) if (has_op(kind, op)) { Inst* I = new Inst(kind, be, n); h[2 * op + id] = eval(*I, op, id); delete I; } if (write(p[1], h, sizeof h) != sizeof h) _exit(3); _exit(0); }
        close(p[1]); ssize_t g = read(p[0], h, sizeof h); close(p[0]); int w; waitpid(c, &w, 0);
        if (g != sizeof h) { report(std::string("fresh instance crashed: ") + kind + " " + BEN[be] + " N=" + S(n), "fresh-crash"); continue; }
        for (int op = 0; op < 8; op++) for (int id = 0; id < 2; id++) REF[Key(kind, be, n, op, id)] = h[2 * op + id];
        std::vector<int> from = {0, n, n - st, n + st, n - 2 * st, n + 2 * st, 2 * n, 3 * n, n / 2 / st * st, 64, 16};
        for (int a : from) for (int use = 0; use < 2; use++) { if (a < 0) continue;
            cur = std::string(" ") + kind + " " + BEN[be] + " create(" + S(a) + ")" + (use ? " run" : "") + " setup(" + S(n) + ")"; if (use == 0 && a == 0) at(); states++;
            Inst* I = make(kind, be, a); if (use && a) { input(kind, a, 1, 0, X.data(), Y.data()); { mem::Arm m; I->run(1, X.data(), Y.data()); } input(kind, a, 4, 1, X.data(), Y.data()); mem::Arm m; I->run(4, X.data(), Y.data()); }
            { mem::Arm m; I->setup(n); } for (int id = 0; id < 2; id++) if (!allops(*I, id)) break;
            del(I); mem::collect(); }
        REF.clear();
    }
}
// all sequences of `depth` transforms (operation x input) on one instance
static void ops(char kind, int be, const std::vector<int>& L, int depth, int shard, int ns) {
    const int A = 16; long total = 1; for (int i = 0; i < depth; i++) total *= A;
    for (int n : L) {
        if (n < 1) continue;
        Inst* I = make(kind, be, n); cur = std::string(" ") + kind + " " + BEN[be] + " create(" + S(n) + ")"; at();
        for (long code = shard; code < total; code += ns) {
            states++; long c = code; bool ok = true; cur = std::string(" ") + kind + " " + BEN[be] + " create(" + S(n) + ")";
            for (int i = 0; i < depth && ok; i++, c /= A) { int op = c % 8, id = (c / 8) % 2; ok = expect(*I, op, id); cur += std::string(" ") + OPN[op] + "/" + S(id); }
            if (!ok) break;
        }
        del(I); mem::collect();
    }
}
// two instances, the second of any kind: all action sequences
static void two(char kind, int be, const std::vector<int>& L, int depth, int shard, int ns) {
    const int A = (int)L.size(); const char* KS = "CRDB";
    const int K = 2 * A + 2 + 4 * A + 2;   // create0(n) setup0(n) fwd0 inv0 | set1(kind,n) run1 destroy1
    long total = 1; for (int i = 0; i < depth; i++) total *= K;
    for (long code = shard; code < total; code += ns) {
        Inst* I = nullptr; Inst* J = nullptr; long c = code; bool ok = true; cur.clear(); states++;
        for (int i = 0; i < depth && ok; i++, c /= K) {
            int a = c % K;
            if (a < A) { cur += std::string(" 0=create(") + kind + "," + S(L[a]) + ")"; if (I) del(I); I = make(kind, be, L[a]); }
            else if (a < 2 * A) { int n = L[a - A]; cur += " 0.setup(" + S(n) + ")"; if (!I) I = make(kind, be, 0); { mem::Arm m; I->setup(n); } }
            else if (a < 2 * A + 2) { int op = a == 2 * A ? (i % 2 ? 1 : 0) : (i % 2 ? 7 : 5); cur += std::string(" 0.") + OPN[op]; if (I) ok = expect(*I, op, i & 1); }
            else if (a < 2 * A + 2 + 4 * A) { int q = a - 2 * A - 2; char k = KS[q / A]; int n = k == 'B' ? L[q % A] : 2 * L[q % A], b2 = (be + q) % 3; cur += std::string(" 1=") + k + BEN[b2] + "(" + S(n) + ")";
                if (J && J->kind == k && J->be == b2) { mem::Arm m; J->setup(n); } else { if (J) del(J); J = make(k, b2, n); } }
            else if (a == K - 2) { cur += " 1.run"; if (J) ok = expect(*J, 1, 1) && expect(*J, 4, 0); }
            else { cur += " destroy1"; if (J) del(J); }
        }
        if (states % 256 == 1) at();
        if (ok && I) { ok = expect(*I, 0, 0) && expect(*I, 4, 1); }
        if (ok && J) { ok = expect(*J, 0, 0) && expect(*J, 7, 1); }
        if (I) del(I); if (J) del(J); mem::collect();
    }
}
int main(int argc, char** argv) {
    if (argc < 9) return 3;
    char kind = argv[2][0]; auto L = ints(argv[4]); int shard = atoi(argv[5]), ns = atoi(argv[6]), depth = atoi(argv[7]); mem::fill = atoi(argv[8]); if (mem::fill < 0) { mem::fill = 0; mem::off = 1; }
    const std::string mode = argv[1]; std::vector<int> bes; for (const char* b = argv[3]; *b; b++) bes.push_back(*b == 's' ? 0 : *b == 'a' ? 1 : 2);
    if (mode != "near") for (int be : bes) for (int n : L) if (mode == "two") { for (int b = 0; b < 3; b++) for (char k : std::string("CRDB")) { refs(k, b, k == 'B' ? n : 2 * n, 2); refs(kind, b, n, 2); } } else refs(kind, be, n, 2);
    for (int be : bes) { if (mode == "near") near(kind, be, L, shard, ns); else if (mode == "chain") chain(kind, be, L, depth, shard, ns); else if (mode == "ops") ops(kind, be, L, depth, shard, ns); else two(kind, be, L, depth, shard, ns); }
    printf("{\"states\": %ld, \"transitions\": %ld, \"refs\": %zu}\n", states, trans, REF.size());
    return g_nviol ? 1 : 0;
}
