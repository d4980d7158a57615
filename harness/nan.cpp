// C16: non-finite data.  nan KIND BACKENDS LENGTHS ALLPOSITIONS SHARD NSHARDS
// Every position/component x {NaN, +Inf, -Inf} x operation: every output with a non-zero coefficient is non-finite; and the
// call leaves no trace: the next transforms (same and another instance) give the same bits as before.
#include "inst.h"
#include <cmath>
#include <limits>
static long states = 0, trans = 0;
// does the input component (position p, component c) contribute to the output component (index k, component d)?
static bool contributes(char kind, long n, bool inv, long p, int c, long k, int d) {
    if (kind == 'D') { const long j = inv ? k : p, q = inv ? p : k; return ((2 * j + 1) % (2 * n) * q) % (2 * n) != n; }
    const long t = (long)((__int128)p * k % n);
    const bool cosz = (4 * t) % (2 * n) == n, sinz = (2 * t) % n == 0;     // cos(2 pi t/n) = 0 iff 4t = n or 3n; sin = 0 iff 2t = 0 or n
    return c == d ? !cosz : !sinz;
}
static std::map<std::pair<int, int>, std::pair<std::vector<double>, std::vector<double>>> cache;     // inputs of the current length
static void load(char kind, long n, int op, int id, double* x, double* y) {
    auto& c = cache[{op < 4 ? 0 : 1, id}];
    if (c.first.empty()) { input(kind, n, op, id, x, y); c.first.assign(x, x + xlen(kind, n) + 1); c.second.assign(y, y + ylen(kind, n) + 1); }
    if (kind == 'R' && op >= 4) memcpy(y, c.second.data(), ylen(kind, n) * 8); else memcpy(x, c.first.data(), xlen(kind, n) * 8);
}
static void one(char kind, int be, int n, bool allpos, int shard, int ns) {
    const size_t xn = xlen(kind, n), yn = ylen(kind, n);
    std::vector<double> x(xn + 1), y(yn + 1);
    printf("{\"at\": \"%c %s N=%d\"}\n", kind, BEN[be], n); fflush(stdout);
    cache.clear(); Inst I(kind, be, n), J(kind, be, n);
    uint64_t ref[8]; for (int op = 0; op < 8; op++) if (has_op(kind, op)) { input(kind, n, op, 1, x.data(), y.data()); Inst F(kind, be, n); F.run(op, x.data(), y.data()); ref[op] = hash(outp(kind, op, x.data(), y.data()), outn(kind, op, n)); }
    const std::string where = std::string(1, kind) + " " + BEN[be] + " N=" + S(n) + " ";
    auto after = [&](Inst& i, int op, const std::string& what) {
        if (!has_op(kind, op)) op = (op + 1) % 8;
        load(kind, n, op, 1, x.data(), y.data()); i.run(op, x.data(), y.data()); trans++;
        if (hash(outp(kind, op, x.data(), y.data()), outn(kind, op, n)) == ref[op]) return true;
        report(where + OPN[op] + ": result on finite data changed after " + what, where + "after"); return false; };
    const double vals[3] = {std::numeric_limits<double>::quiet_NaN(), INFINITY, -INFINITY};
    long work = 0;
    for (int op = 0; op < 8; op++) { if (!has_op(kind, op)) continue;
        const bool inv = op >= 4, spec = kind == 'R' && inv, cin = kind == 'C' || kind == 'B' || spec;
        double* in = spec ? y.data() : x.data(); double* out = outp(kind, op, x.data(), y.data()); const bool cout = outn(kind, op, n) == 2 * (size_t)n;
        const long np = spec ? n / 2 + 1 : n, step = allpos ? 1 : std::max(1l, np / (allpos ? 1 : 6));
        for (long i = 0; i * step < np + step - 1; i++) { long p = std::min(np - 1, i * step + (allpos ? 0 : i % step));
            for (int c = 0; c < (cin ? 2 : 1); c++) { if (spec && c && (p == 0 || 2 * p == n)) continue;
                for (int v = 0; v < (n > 64 ? 2 : 3); v++) { if (work++ % ns != shard) continue;
                    const double bad = vals[n > 64 && v ? 1 + (p & 1) : v]; states++; trans++;
                    load(kind, n, op, 0, x.data(), y.data());
                    if (cin) { in[2 * p + c] = bad; if (spec && p && 2 * p != n) in[2 * (n - p) + c] = c ? -bad : bad; } else in[p] = bad;
                    I.run(op, x.data(), y.data());
                    for (long k = 0; k < n; k++) for (int d = 0; d < (cout ? 2 : 1); d++)
                        if (std::isfinite(out[cout ? 2 * k + d : k]) && contributes(kind, n, inv, p, c, k, d)) {
                            report(where + OPN[op] + ": input element " + S(p) + (c ? ".Im" : "") + " is " + (v ? bad > 0 ? "inf" : "-inf" : "NaN") + ", but output element " + S(k) + (d ? ".Im" : "") + " is the finite value " + std::to_string(out[cout ? 2 * k + d : k]), where + OPN[op]); goto next; }
                next:
                    const std::string what = std::string(OPN[op]) + " with a non-finite element " + S(p);
                    if (!after(I, op, what) || (allpos && !after(I, (int)((p + v) % 8), what))) return;
                    if ((p + c) % 7 == 0 && !after(J, (op + 4) % 8, what + " on another instance")) return;
                } } }
        // overflow: a constant near the largest double sums up beyond the range
        if ((op == 1 || op == 4 || op == 5) && shard == 0 && n > 1 && kind != 'B') {
            for (size_t k = 0; k < (spec ? yn : xn); k++) in[k] = spec && (k & 1) ? 0 : 1.7e308; states++; trans++;
            I.run(op, x.data(), y.data());
            if (std::isfinite(out[0])) report(where + OPN[op] + ": sum beyond the range of double gives the finite value " + std::to_string(out[0]), where + OPN[op] + "overflow");
            if (!after(I, op, std::string(OPN[op]) + " with overflow")) return;
        }
    }
}
int main(int argc, char** argv) {
    if (argc < 7) return 3;
    const char kind = argv[1][0]; auto L = ints(argv[3]); const bool all = atoi(argv[4]); const int sh = atoi(argv[5]), ns = atoi(argv[6]);
    for (char b : std::string(argv[2])) for (int n : L) one(kind, b == 's' ? 0 : b == 'a' ? 1 : 2, n, all, sh, ns);
    printf("{\"states\": %ld, \"transitions\": %ld}\n", states, trans);
    return 0;
}
