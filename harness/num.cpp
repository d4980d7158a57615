// Exhaustive numeric explorer (C01..C04): compares every transform of the real library with exact reference columns.
// usage: num KIND JOBFILE SHARD NSHARDS
// job line:  MODE N BACKENDS OPS     MODE: basis | huge | dense | light (closed-form columns only) | denormal   BACKENDS: subset of "sav" (sse2, avx, avx2)  OPS: bit mask (hex)
#include "otfft.h"
#include <cstdio>
#include <time.h>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <cmath>
#include <map>
#include <memory>
#include <algorithm>
#include <exception>
using namespace OTFFT;
typedef long double LD;
static const LD PIL = 3.14159265358979323846264338327950288419716939937510L;
struct C { double r, i; };
static const char* OPN[8] = {"fwd","fwd0","fwdu","fwdn","inv","inv0","invu","invn"};
static const char* BEN[3] = {"SSE2","AVX","AVX2"};
static const OptimizationType BET[3] = {OptimizationType::OPTIMIZED_FFT_SSE2, OptimizationType::OPTIMIZED_FFT_AVX, OptimizationType::OPTIMIZED_FFT_AVX2};
static char kind;
static long evals = 0, columns = 0, nviol = 0;
struct Worst { double v = 0; long N = 0; int op = 0; };
static std::map<std::string, Worst> worst;

static std::string cls(long N) {
    long m = N; while (m % 2 == 0) m /= 2; if (m == 1) return "pow2";
    while (m % 3 == 0) m /= 3; while (m % 5 == 0) m /= 5; if (m == 1) return "235";
    return "any";
}
static long maxprime(long N) { long b = 1; for (long p = 2; p * p <= N; p++) while (N % p == 0) { b = std::max(b, p); N /= p; } return std::max(b, N); }
// error allowance relative to |x|_2 * scale; C(N) eps
static double allow(long N) {
    const double l = std::log2((double)std::max(N, 2L)); const long n = kind == 'C' || kind == 'B' ? N : std::max(N / 2, 1L);
    const bool p2 = kind == 'B' || (n & (n - 1)) == 0;
    double a = p2 ? 16.0 + 6.0 * l : 64.0 + 64.0 * l;
    if (kind != 'B') { const double p = (double)maxprime(n); if (p > 5) a += 2 * p; }
    return a * (kind == 'C' ? 1.5 : kind == 'B' ? 1.5 : 4) * 2.220446049250313e-16;
}
static void rootl(unsigned long long num, unsigned long long den, LD& c, LD& s) {   // e^{2 pi i num/den}
    num %= den;
    const long q = (long)(((__int128)num * 8 + den) / ((__int128)2 * den));   // nearest quarter turn
    const __int128 rest = (__int128)num * 4 - (__int128)q * den;              // rest/(4 den) of a turn, at most 1/8
    const LD y = (PIL / 2) * ((LD)rest / (LD)den);
    const LD cc = cosl(y), ss = sinl(y);
    switch (q & 3) { case 0: c = cc; s = ss; break; case 1: c = -ss; s = cc; break; case 2: c = -cc; s = -ss; break; default: c = ss; s = -cc; }
}
// the library runs with whatever floating-point control state it left behind; everything else here runs with the initial one
struct LibEnv { static unsigned& lib() { static thread_local unsigned v = _mm_getcsr(); return v; } unsigned mine; LibEnv() : mine(_mm_getcsr()) { _mm_setcsr(lib()); } ~LibEnv() { lib() = _mm_getcsr(); _mm_setcsr(mine); } };
struct Inst {
    ComplexFFTPtr c; RealFFTPtr r; RealDCTPtr d;
    Inst(int be, int N) { LibEnv env;
        if (kind == 'C') c = Factory::createComplexFFT(N, BET[be]);
        else if (kind == 'B') c = Factory::createBluesteinFFT(N, BET[be]);
        else if (kind == 'R') r = Factory::createRealFFT(N, BET[be]);
        else d = Factory::createDCT(N, BET[be]);
    }
    // C,B: x is 2N doubles in place.  D: x is N doubles in place.  R fwd: x N doubles, y 2N doubles; R inv: y 2N doubles -> x N doubles
    void run(int op, double* x, double* y) { LibEnv env;
        if (c) { complex_t* z = (complex_t*)x;
            switch (op) { case 0: c->fwd(z); break; case 1: c->fwd0(z); break; case 2: c->fwdu(z); break; case 3: c->fwdn(z); break;
                          case 4: c->inv(z); break; case 5: c->inv0(z); break; case 6: c->invu(z); break; case 7: c->invn(z); break; } }
        else if (r) { complex_t* z = (complex_t*)y;
            switch (op) { case 0: r->fwd(x, z); break; case 1: r->fwd0(x, z); break; case 2: r->fwdu(x, z); break; case 3: r->fwdn(x, z); break;
                          case 4: r->inv(z, x); break; case 5: r->inv0(z, x); break; case 6: r->invu(z, x); break; case 7: r->invn(z, x); break; } }
        else {
            switch (op) { case 0: d->fwd(x); break; case 1: d->fwd0(x); break; case 3: d->fwdn(x); break;
                          case 4: d->inv(x); break; case 5: d->inv0(x); break; case 7: d->invn(x); break; } }
    }
};
static double scl(int op, long N) {
    switch (op) { case 0: case 3: case 7: return 1.0 / N; case 2: case 6: return 1.0 / std::sqrt((double)N); default: return 1.0; }
}
static void viol(const char* what, int be, long N, int op, const std::string& in, long k, double got, double want, double err, double tol) {
    if (++nviol > 12) return;
    printf("{\"viol\":\"%s: kind=%c backend=%s N=%ld op=%s input=%s: element %ld is %.17g, expected %.17g (error %.3g, allowed %.3g)\",\"key\":\"%c:%s:%ld:%s:%s\"}\n",
           what, kind, BEN[be], N, OPN[op], in.c_str(), k, got, want, err, tol, kind, BEN[be], N, OPN[op], what);
    fflush(stdout);
}
// a vector with an own buffer (plain malloc: natural alignment only)
struct Buf { double* p; size_t n; Buf(size_t n) : p((double*)malloc((n + 2) * 8)), n(n) { if (!p) { fprintf(stderr, "oom\n"); _Exit(3); } } ~Buf() { free(p); } };

// compare out[0..n) to ref*scale; returns worst ratio, reports first element outside the allowance
static bool cmp(const double* out, const double* ref, long n, double scale, double tol, double& w, long& at) {
    double m = 0; long bad = -1;
    const double t = tol;
#pragma omp parallel for schedule(static) reduction(max : m) reduction(max : bad) if (n > 65536)
    for (long k = 0; k < n; k++) {
        double e = std::fabs(out[k] - ref[k] * scale);
        if (!(e <= t)) bad = std::max(bad, k);
        if (e > m) m = e;
    }
    w = m; at = bad; return bad < 0;
}
static void note(long N, int op, double ratio) {
    Worst& w = worst[cls(N)]; if (ratio > w.v) { w.v = ratio; w.N = N; w.op = op; }
}
struct Input { std::string name; std::vector<double> in; std::vector<double> ref; double nrm; bool inv; };
// in: for R inv: 2N (spectrum) -> ref N; R fwd: N -> ref 2N; C,B: 2N -> 2N; D: N -> N
static void check_one(Inst& I, int be, long N, int op, const Input& q, Buf& x, Buf& y, Buf& keep) {
    const bool inv = op >= 4;
    const double s = scl(op, N), tol = allow(N) * s * q.nrm;
    double w; long at; bool ok;
    evals++;
    if (kind == 'R') {
        if (!inv) {
            memcpy(x.p, q.in.data(), N * 8); I.run(op, x.p, y.p);
            ok = cmp(y.p, q.ref.data(), 2 * N, s, tol, w, at); note(N, op, w / (s * q.nrm * 2.220446049250313e-16));
            if (!ok) viol("wrong value", be, N, op, q.name, at, y.p[at], q.ref[at] * s, std::fabs(y.p[at] - q.ref[at] * s), tol);
            if (memcmp(x.p, q.in.data(), N * 8)) viol("input array modified", be, N, op, q.name, 0, 0, 0, 0, 0);
            const C* Y = (const C*)y.p;
            for (long k = 1; k < N - k; k++) if (!(Y[k].r == Y[N - k].r && Y[k].i == -Y[N - k].i)) { viol("spectrum not conjugate-symmetric", be, N, op, q.name, k, Y[N - k].i, -Y[k].i, 0, 0); break; }
            if (N > 0 && !(Y[0].i == 0)) viol("zero bin not real", be, N, op, q.name, 0, Y[0].i, 0, 0, 0);
            if (N > 1 && N % 2 == 0 && !(Y[N / 2].i == 0)) viol("middle bin not real", be, N, op, q.name, N / 2, Y[N / 2].i, 0, 0, 0);
        } else {
            memcpy(y.p, q.in.data(), 2 * N * 8); I.run(op, x.p, y.p);
            ok = cmp(x.p, q.ref.data(), N, s, tol, w, at); note(N, op, w / (s * q.nrm * 2.220446049250313e-16));
            if (!ok) viol("wrong value", be, N, op, q.name, at, x.p[at], q.ref[at] * s, std::fabs(x.p[at] - q.ref[at] * s), tol);
        }
        return;
    }
    const long n = kind == 'D' ? N : 2 * N;
    memcpy(x.p, q.in.data(), n * 8); I.run(op, x.p, nullptr);
    ok = cmp(x.p, q.ref.data(), n, s, tol, w, at); note(N, op, w / (s * q.nrm * 2.220446049250313e-16));
    if (!ok) viol("wrong value", be, N, op, q.name, at, x.p[at], q.ref[at] * s, std::fabs(x.p[at] - q.ref[at] * s), tol);
}
static double norm2(const std::vector<double>& v) { LD s = 0; for (double a : v) s += (LD)a * a; return (double)sqrtl(s); }

// exact homogeneity under powers of two
static void check_scale(Inst& I, int be, long N, int op, const Input& q, Buf& x, Buf& y, int e) {
    const bool inv = op >= 4;
    const double f = std::ldexp(1.0, e), g = std::ldexp(1.0, -e);
    evals++;
    size_t ni = q.in.size(), no = q.ref.size();
    std::vector<double> a(no);
    double* in = kind == 'R' && inv ? y.p : x.p; double* out = kind == 'R' && !inv ? y.p : x.p;
    memcpy(in, q.in.data(), ni * 8); I.run(op, x.p, y.p); memcpy(a.data(), out, no * 8);
    for (size_t k = 0; k < ni; k++) in[k] = q.in[k] * f;
    I.run(op, x.p, y.p);
    for (size_t k = 0; k < no; k++) if (!(out[k] * g == a[k])) { viol("result does not scale with the input", be, N, op, q.name + "*2^" + std::to_string(e), k, out[k] * g, a[k], std::fabs(out[k] * g - a[k]), 0); return; }
}

static void basis(long N, const std::vector<int>& bes, unsigned ops) {
    std::vector<C> W(kind == 'D' ? 4 * N : N);
    const long T = W.size();
    for (long k = 0; k < T; k++) { LD c, s; rootl(k, T, c, s); W[k].r = (double)c; W[k].i = (double)s; }   // e^{+2 pi i k/T}
    std::vector<std::unique_ptr<Inst>> I;
    for (int b : bes) I.emplace_back(new Inst(b, N));
    Buf x(2 * N), y(2 * N), keep(2 * N);
    for (int inv = 0; inv < 2; inv++) {
        const long cols = kind == 'C' || kind == 'B' ? 2 * N : N;
        for (long j = 0; j < cols; j++) {
            Input q; q.inv = inv; q.nrm = 1;
            char nm[64]; 
            if (kind == 'C' || kind == 'B') {
                const long p = j >> 1; const bool im = j & 1;
                snprintf(nm, 64, "%s*e_%ld", im ? "i" : "1", p);
                q.in.assign(2 * N, 0); q.in[2 * p + im] = 1; q.ref.resize(2 * N);
                long t = 0;
                for (long k = 0; k < N; k++) {
                    double c = W[t].r, s = inv ? W[t].i : -W[t].i;
                    if (!im) { q.ref[2 * k] = c; q.ref[2 * k + 1] = s; } else { q.ref[2 * k] = -s; q.ref[2 * k + 1] = c; }
                    t += p; if (t >= N) t -= N;
                }
            } else if (kind == 'R' && !inv) {
                snprintf(nm, 64, "e_%ld", j);
                q.in.assign(N, 0); q.in[j] = 1; q.ref.resize(2 * N);
                long t = 0; for (long k = 0; k < N; k++) { q.ref[2 * k] = W[t].r; q.ref[2 * k + 1] = -W[t].i; t += j; if (t >= N) t -= N; }
            } else if (kind == 'R') {
                q.in.assign(2 * N, 0); q.ref.resize(N);
                const long h = N / 2;
                if (j <= h) { q.in[2 * j] = 1; q.in[2 * ((N - j) % N)] = 1; const double m = (j == 0 || j == h) ? 1 : 2; if (m == 2) q.nrm = std::sqrt(2.0);
                    long t = 0; for (long k = 0; k < N; k++) { q.ref[k] = m * W[t].r; t += j; if (t >= N) t -= N; } snprintf(nm, 64, "bin_%ld", j); }
                else { const long b = j - h; q.in[2 * b + 1] = 1; q.in[2 * (N - b) + 1] = -1; q.nrm = std::sqrt(2.0);
                    long t = 0; for (long k = 0; k < N; k++) { q.ref[k] = -2 * W[t].i; t += b; if (t >= N) t -= N; } snprintf(nm, 64, "i*bin_%ld", b); }
            } else {
                snprintf(nm, 64, "e_%ld", j);
                q.in.assign(N, 0); q.in[j] = 1; q.ref.resize(N);
                if (!inv) { long t = 0; for (long k = 0; k < N; k++) { q.ref[k] = W[t].r; t = (t + 2 * j + 1) % T; } }
                else { long t = j % T; for (long n = 0; n < N; n++) { q.ref[n] = j == 0 ? 1 : 2 * W[t].r; t = (t + 2 * j) % T; } }
            }
            q.name = nm; columns++;
            for (size_t b = 0; b < bes.size(); b++)
                for (int op = inv * 4; op < inv * 4 + 4; op++) if (ops >> op & 1) check_one(*I[b], bes[b], N, op, q, x, y, keep);
        }
    }
}

// ---- dense inputs: an independent long-double FFT (self-checked against closed-form columns) and multi-impulse columns
struct L2 { LD r, i; };
static std::vector<L2> reffft(std::vector<L2> x, long N, bool inv) {     // generic Stockham, any N, roots from a two-level exact table
    const long B = 1 << 12; std::vector<L2> lo(B), hi(N / B + 1);
    for (long k = 0; k < B; k++) rootl(k % N, N, lo[k].r, lo[k].i);
    for (long k = 0; k <= N / B; k++) rootl((k * B) % N, N, hi[k].r, hi[k].i);
    auto root = [&](long t) { const L2 a = hi[t / B], b = lo[t % B]; L2 c = {a.r * b.r - a.i * b.i, a.r * b.i + a.i * b.r}; if (!inv) c.i = -c.i; return c; };
    std::vector<L2> y(N); long n = N, s = 1;
    while (n > 1) {
        long p = n % 4 == 0 ? 4 : 2; while (n % p) { p++; if (p * p > n) p = n; }
        const long m = n / p; std::vector<L2> rp(p);
        for (long j = 0; j < p; j++) { rootl(j, p, rp[j].r, rp[j].i); if (!inv) rp[j].i = -rp[j].i; }
#pragma omp parallel for schedule(static) if (N > 8192)
        for (long t = 0; t < m * s; t++) {
            const long q = t / s, k = t % s; L2 a[4]; std::vector<L2> big; L2* A = a; if (p > 4) { big.resize(p); A = big.data(); }
            for (long j = 0; j < p; j++) A[j] = x[k + s * (q + m * j)];
            if (p == 4) {
                const LD g = inv ? 1 : -1;
                L2 u0 = {a[0].r + a[2].r, a[0].i + a[2].i}, u1 = {a[0].r - a[2].r, a[0].i - a[2].i}, u2 = {a[1].r + a[3].r, a[1].i + a[3].i}, u3 = {a[1].r - a[3].r, a[1].i - a[3].i};
                L2 ju3 = {-g * u3.i, g * u3.r};
                L2 o[4] = {{u0.r + u2.r, u0.i + u2.i}, {u1.r + ju3.r, u1.i + ju3.i}, {u0.r - u2.r, u0.i - u2.i}, {u1.r - ju3.r, u1.i - ju3.i}};
                for (long r = 0; r < 4; r++) { L2 w = root(s * q * r); y[k + s * (4 * q + r)] = {o[r].r * w.r - o[r].i * w.i, o[r].r * w.i + o[r].i * w.r}; }
            } else for (long r = 0; r < p; r++) {
                LD br = 0, bi = 0; long e = 0;
                for (long j = 0; j < p; j++) { br += A[j].r * rp[e].r - A[j].i * rp[e].i; bi += A[j].r * rp[e].i + A[j].i * rp[e].r; e += r; if (e >= p) e -= p; }
                L2 w = root(s * q * r); y[k + s * (p * q + r)] = {br * w.r - bi * w.i, br * w.i + bi * w.r};
            }
        }
        x.swap(y); n = m; s *= p;
    }
    return x;
}
static double hval(unsigned long long k) {       // fixed irregular sequence in (-1,1)
    k += 0x9E3779B97F4A7C15ull; k = (k ^ (k >> 30)) * 0xBF58476D1CE4E5B9ull; k = (k ^ (k >> 27)) * 0x94D049BB133111EBull; k ^= k >> 31;
    return (double)((long long)(k >> 11) - (1ll << 52)) / (double)(1ll << 52);
}
static std::vector<double> rnd(const std::vector<L2>& v) { std::vector<double> o(2 * v.size()); for (size_t k = 0; k < v.size(); k++) { o[2 * k] = (double)v[k].r; o[2 * k + 1] = (double)v[k].i; } return o; }
static void dense_inputs(long N, std::vector<Input>& out, bool wantF, bool wantI, bool light) {
    // positions and coefficients of the multi-impulse
    std::vector<long> pos;
    for (long p : {N - 1, N / 2 + 1, N / 3, (long)(0.7071067811865 * N), (long)(0.6180339887 * N) | 1, (long)1, (long)(0.0123 * N) + 2, N / 4 + 3}) { p = ((p % N) + N) % N; if (std::find(pos.begin(), pos.end(), p) == pos.end()) pos.push_back(p); }
    const LD cr[8] = {1.0L, -0.75L, 0.59375L, 1.3125L, -0.40625L, 0.875L, -1.125L, 0.671875L}, ci[8] = {0.34375L, 1.21875L, -0.9375L, 0.28125L, 0.71875L, -1.0625L, 0.15625L, -0.53125L};
    auto herm = [&](const std::vector<double>& ref, const std::vector<double>& x, const std::string& nm) {   // conjugate-symmetric spectrum -> N x
        Input v; v.inv = true; v.name = nm; v.in = ref; v.in[1] = 0; if (N % 2 == 0) v.in[N + 1] = 0;
        for (long k = 1; k < N - k; k++) { v.in[2 * (N - k)] = v.in[2 * k]; v.in[2 * (N - k) + 1] = -v.in[2 * k + 1]; }
        v.ref.resize(N); for (long k = 0; k < N; k++) v.ref[k] = x[k] * (double)N; v.nrm = norm2(v.in); return v;
    };
    if (kind != 'D') {
        const bool real = kind == 'R';
        std::vector<double> tr(N), ti(N);
#pragma omp parallel for schedule(static) if (N > 4096)
        for (long k = 0; k < N; k++) { LD c, s; rootl(k, N, c, s); tr[k] = (double)c; ti[k] = (double)s; }
        auto multi = [&](bool inv) {   // transform of sum_m c_m e_pos, closed form
            std::vector<double> ref(2 * N);
#pragma omp parallel for schedule(static) if (N > 4096)
            for (long k = 0; k < N; k++) {
                LD re = 0, im = 0;
                for (size_t u = 0; u < pos.size(); u++) {
                    const long t = (long)((unsigned long long)pos[u] * (unsigned long long)k % (unsigned long long)N); const LD c = tr[t], s = inv ? ti[t] : -ti[t];
                    const LD a = cr[u], b = real ? 0 : ci[u]; re += a * c - b * s; im += a * s + b * c;
                }
                ref[2 * k] = (double)re; ref[2 * k + 1] = (double)im;
            }
            return ref;
        };
        std::vector<double> mi(real ? N : 2 * N, 0.0), de(real ? N : 2 * N);
        for (size_t u = 0; u < pos.size(); u++) if (real) mi[pos[u]] = (double)cr[u]; else { mi[2 * pos[u]] = (double)cr[u]; mi[2 * pos[u] + 1] = (double)ci[u]; }
        for (size_t k = 0; k < de.size(); k++) de[k] = hval(k + 77 * N);
        auto L = [&](const std::vector<double>& v) { std::vector<L2> o(N); for (long k = 0; k < N; k++) if (real) o[k] = {v[k], 0}; else o[k] = {v[2 * k], v[2 * k + 1]}; return o; };
        for (int inv = 0; inv < (real ? 1 : 2); inv++) {
            if (!real && (inv ? !wantI : !wantF)) continue;
            Input q; q.inv = inv; q.name = "impulses"; q.in = mi; q.ref = multi(inv); q.nrm = norm2(mi);
            if (N <= 65536 && maxprime(N) < 500) {   // self-check of the reference FFT
                auto r = rnd(reffft(L(mi), N, inv)); for (size_t k = 0; k < r.size(); k++) if (!(std::fabs(r[k] - q.ref[k]) < 1e-13)) { fprintf(stderr, "reference FFT is wrong N=%ld\n", N); _Exit(3); }
            }
            Input g; g.inv = inv; g.name = "dense"; g.in = de; g.nrm = norm2(de);
            if (!light) g.ref = rnd(reffft(L(de), N, inv));
            if (real) { if (wantI) { out.push_back(herm(q.ref, mi, "spectrum of impulses")); if (!light) out.push_back(herm(g.ref, de, "spectrum of dense")); } if (!wantF) continue; }
            out.push_back(std::move(q)); if (!light) out.push_back(std::move(g));
        }
    } else {
        std::vector<double> mi(N, 0.0), de(N), rm(N), rd(N);
        for (size_t u = 0; u < pos.size(); u++) mi[pos[u]] = (double)cr[u];
        for (long k = 0; k < N; k++) de[k] = hval(k + 77 * N);
        std::vector<L2> e(light ? 0 : 2 * N); for (long k = 0; !light && k < N; k++) e[k] = e[2 * N - 1 - k] = {de[k], 0};
        if (!light) e = reffft(std::move(e), 2 * N, false);
#pragma omp parallel for schedule(static) if (N > 4096)
        for (long k = 0; k < N; k++) {
            LD re = 0; for (size_t u = 0; u < pos.size(); u++) { LD c, s; rootl((unsigned long long)((__int128)(2 * pos[u] + 1) * k % (4 * N)), 4 * N, c, s); re += cr[u] * c; }
            rm[k] = (double)re;
            if (!light) { LD c, s; rootl(k, 4 * N, c, s); rd[k] = (double)((e[k].r * c + e[k].i * s) / 2); }
        }
        auto add = [&](const std::vector<double>& x, const std::vector<double>& y, const std::string& nm) {
            if (wantF) { Input q; q.inv = false; q.name = nm; q.in = x; q.ref = y; q.nrm = norm2(x); out.push_back(std::move(q)); }
            if (wantI) { Input v; v.inv = true; v.name = "DCT of " + nm; v.in = y; v.ref = x; for (auto& a : v.ref) a *= (double)N; v.nrm = 2 * norm2(y); out.push_back(std::move(v)); }
        };
        add(mi, rm, "impulses"); if (!light) add(de, rd, "dense");
    }
}
static void peak(Input& q) { double m = 0; for (double a : q.ref) m = std::max(m, std::fabs(a)); q.nrm = std::max(q.nrm, m / 8); }   // a concentrated output carries error in proportion to its peak
static void dense(long N, const std::vector<int>& bes, unsigned ops, bool light) {
    std::vector<Input> qs; dense_inputs(N, qs, ops & 15, ops >> 4, light); for (auto& q : qs) peak(q);
    Buf x(2 * N), y(2 * N), keep(1);
    for (int b : bes) {
        Inst I(b, N);
        for (auto& q : qs) { columns++;
            for (int op = q.inv * 4; op < q.inv * 4 + 4; op++) if ((ops >> op & 1) && (kind != 'D' || (op & 3) != 2)) {
                check_one(I, b, N, op, q, x, y, keep);
                if ((N <= (1 << 11) || (N <= (1 << 17) && (N & (N - 1)) == 0)) && q.name.find("dense") != std::string::npos) { check_scale(I, b, N, op, q, x, y, 800); check_scale(I, b, N, op, q, x, y, -800); }
            } }
    }
}
// subnormal inputs are not flushed: an impulse at 0 of subnormal size transforms to a constant of that size
static void denormal(long N, const std::vector<int>& bes, unsigned ops) {
    const double d = std::ldexp(1.0, -1068);
    std::vector<double> x(2 * N + 2), y(2 * N + 2);
    for (int b : bes) { Inst I(b, N);
        for (int op : {1, 5}) { if (kind == 'R' && op == 5) continue; evals++; columns++;
            std::fill(x.begin(), x.end(), 0.0); x[0] = d; I.run(op, x.data(), y.data());
            const double* o = kind == 'R' ? y.data() : x.data();
            for (long k = 0; k < N; k++) if (!(std::fabs(o[2 * k] - d) <= d / 8)) { viol("subnormal input lost", b, N, op, "2^-1068 e_0", k, o[2 * k], d, 0, d / 8); break; } } }
}
// lengths whose reference would not fit: basis columns near the ends, compared with values computed on the fly
static void huge(long N, const std::vector<int>& bes, unsigned ops) {
    const size_t nx = kind == 'C' || kind == 'B' ? 2 * N : N, ny = kind == 'R' ? 2 * N : 1;
    Buf x(nx), y(ny);
    for (int b : bes) {
        Inst I(b, N);
        for (int op = 0; op < 8; op++) { if (!(ops >> op & 1) || (kind == 'D' && (op & 3) == 2)) continue;
            const bool inv = op >= 4; const long p = op & 1 ? N - 1 : N / 2 + 1; columns++; evals++;
            const bool spec = kind == 'R' && inv;
            double* in = spec ? y.p : x.p; double* out = kind == 'R' && !inv ? y.p : x.p; const size_t ni = spec ? ny : nx, no = kind == 'R' && !inv ? ny : nx;
#pragma omp parallel for schedule(static)
            for (size_t k = 0; k < ni; k++) in[k] = 0;
            double nrm = 1;
            if (spec) { in[2 * p] = 1; in[2 * (N - p)] = 1; nrm = std::sqrt(2.0); } else if (kind == 'C' || kind == 'B') in[2 * p] = 1; else in[p] = 1;
            I.run(op, x.p, y.p);
            const double s = scl(op, N), tol = allow(N) * s * std::max(nrm, 0.25); long bad = -1; double m = 0;
            auto want = [&](size_t k) { LD c, sn; const bool cplx = no == 2 * (size_t)N;
                if (kind == 'D') { rootl((unsigned long long)((__int128)(inv ? 2 * k + 1 : k) * (inv ? p : 2 * p + 1) % (4 * N)), 4 * N, c, sn); return (double)(inv ? 2 * c : c); }
                const long t = (long)((__int128)p * (cplx ? k / 2 : k) % N); rootl(t, N, c, sn);
                if (!cplx) return (double)(2 * c);
                return (double)(k & 1 ? (inv ? sn : -sn) : c); };
#pragma omp parallel for schedule(static) reduction(max : m) reduction(max : bad)
            for (size_t k = 0; k < no; k++) { const double e = std::fabs(out[k] - want(k) * s); if (!(e <= tol)) bad = std::max(bad, (long)k); if (e > m) m = e; }
            note(N, op, m / (s * nrm * 2.220446049250313e-16));
            if (bad >= 0) viol("wrong value", b, N, op, "impulse at " + std::to_string(p), bad, out[bad], want(bad) * s, std::fabs(out[bad] - want(bad) * s), tol);
            if (kind == 'R' && !inv) for (long k = 0; k < N; k++) if (x.p[k] != (k == p)) { viol("input array modified", b, N, op, "impulse", k, x.p[k], k == p, 0, 0); break; }
        }
    }
}
int main(int argc, char** argv) {
    if (argc < 5) return 3;
    kind = argv[1][0]; const int sh = atoi(argv[3]), ns = atoi(argv[4]);
    FILE* f = fopen(argv[2], "r"); if (!f) return 3;
    char mode[16], bs[8]; long N; unsigned ops; long idx = 0; long lens = 0;
    std::string lastm;
    while (fscanf(f, "%15s %ld %7s %x", mode, &N, bs, &ops) == 4) {
        if (idx++ % ns != sh) continue;
        if (kind == 'D') ops &= ~0x44u;
        std::vector<int> bes; for (char* c = bs; *c; c++) bes.push_back(*c == 's' ? 0 : *c == 'a' ? 1 : 2);
        printf("{\"at\":\"%c %s N=%ld %s ops=%x\"}\n", kind, mode, N, bs, ops); fflush(stdout);
        try {
            if (!strcmp(mode, "huge")) huge(N, bes, ops); else if (!strcmp(mode, "basis")) basis(N, bes, ops); else if (!strcmp(mode, "denormal")) denormal(N, bes, ops); else dense(N, bes, ops, !strcmp(mode, "light"));
        } catch (const std::exception& e) { printf("{\"viol\":\"unexpected exception %s: kind=%c N=%ld\",\"key\":\"%c:exception:%ld\"}\n", e.what(), kind, N, kind, N); nviol++; }
        lens++; if (getenv("NUM_TIME")) { static double last = 0; struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); double now = t.tv_sec + t.tv_nsec * 1e-9; fprintf(stderr, "%.3f %s %ld\n", last ? now - last : 0, mode, N); last = now; }
    }
    printf("{\"evals\":%ld,\"columns\":%ld,\"jobs\":%ld,\"nviol\":%ld,\"worst\":{", evals, columns, lens, nviol);
    bool first = true; for (auto& w : worst) { printf("%s\"%s\":[%.3g,%ld,\"%s\"]", first ? "" : ",", w.first.c_str(), w.second.v, w.second.N, OPN[w.second.op]); first = false; }
    printf("}}\n");
    return 0;
}
