// One transform instance of any kind and backend behind one interface (C complex, R real, D cosine, B Bluestein).
#pragma once
#include "otfft.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include <exception>
#include <new>
#include <algorithm>
#include <unistd.h>
#include <sys/wait.h>
using namespace OTFFT;
static const char* OPN[8] = {"fwd","fwd0","fwdu","fwdn","inv","inv0","invu","invn"};
static const char* BEN[4] = {"SSE2","AVX","AVX2","AUTO"};
static const OptimizationType BET[4] = {OptimizationType::OPTIMIZED_FFT_SSE2, OptimizationType::OPTIMIZED_FFT_AVX, OptimizationType::OPTIMIZED_FFT_AVX2, OptimizationType::OPTIMIZED_FFT_AUTO};
inline bool has_op(char kind, int op) { return kind != 'D' || (op != 2 && op != 6); }
struct Inst {
    char kind; int be; int n;
    ComplexFFTPtr c; RealFFTPtr r; RealDCTPtr d;
    Inst(char k, int b, int N) : kind(k), be(b), n(N) {
        if (k == 'C') c = Factory::createComplexFFT(N, BET[b]);
        else if (k == 'B') c = Factory::createBluesteinFFT(N, BET[b]);
        else if (k == 'R') r = Factory::createRealFFT(N, BET[b]);
        else d = Factory::createDCT(N, BET[b]);
    }
    void setup(int N) { n = N; if (c) c->setup(N); else if (r) r->setup(N); else d->setup(N); }
    void destroy() { c.reset(); r.reset(); d.reset(); }
    // C,B: x is 2N doubles in place.  D: x is N doubles in place.  R fwd: x N doubles, y 2N doubles; R inv: y 2N doubles -> x N doubles
    void run(int op, double* x, double* y) {
        if (c) { complex_t* z = (complex_t*)x;
            switch (op) { case 0: c->fwd(z); break; case 1: c->fwd0(z); break; case 2: c->fwdu(z); break; case 3: c->fwdn(z); break;
                          case 4: c->inv(z); break; case 5: c->inv0(z); break; case 6: c->invu(z); break; case 7: c->invn(z); break; } }
        else if (r) { complex_t* z = (complex_t*)y;
            switch (op) { case 0: r->fwd(x, z); break; case 1: r->fwd0(x, z); break; case 2: r->fwdu(x, z); break; case 3: r->fwdn(x, z); break;
                          case 4: r->inv(z, x); break; case 5: r->inv0(z, x); break; case 6: r->invu(z, x); break; case 7: r->invn(z, x); break; } }
        else if (d) {
            switch (op) { case 0: d->fwd(x); break; case 1: d->fwd0(x); break; case 3: d->fwdn(x); break;
                          case 4: d->inv(x); break; case 5: d->inv0(x); break; case 7: d->invn(x); break; } }
    }
};
inline size_t xlen(char kind, long n) { return kind == 'C' || kind == 'B' ? 2 * n : n; }
inline size_t ylen(char kind, long n) { return kind == 'R' ? 2 * n : 0; }
inline uint64_t mix(uint64_t z) { z += 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
inline double gen(uint64_t k) { return (double)(int64_t)mix(k) * 1.0842021724855044e-19; }
// the input arrays of an operation (a generic dense vector; a conjugate-symmetric spectrum for real inverses)
inline void input(char kind, long n, int op, int id, double* x, double* y) {
    const bool inv = op >= 4;
    if (kind == 'R' && inv) {
        for (long k = 0; k <= n / 2; k++) {
            double a = gen(2 * k + 77777 * id), b = (k == 0 || 2 * k == n) ? 0.0 : gen(2 * k + 1 + 77777 * id);
            y[2 * k] = a; y[2 * k + 1] = b;
            if (k > 0) { y[2 * (n - k)] = a; y[2 * (n - k) + 1] = (2 * k == n) ? b : -b; }
        }
    } else { size_t m = xlen(kind, n); for (size_t k = 0; k < m; k++) x[k] = gen(k + 77777 * id); }
}
inline double* outp(char kind, int op, double* x, double* y) { return kind == 'R' && op < 4 ? y : x; }
inline size_t outn(char kind, int op, long n) { return kind == 'R' && op < 4 ? 2 * n : xlen(kind, n); }
inline uint64_t hash(const double* p, size_t n) {
    uint64_t h = 0x1234567; const uint64_t* q = (const uint64_t*)p;
    for (size_t i = 0; i < n; i++) { h = (h ^ q[i]) * 0xff51afd7ed558ccdull; h ^= h >> 29; }
    return h;
}
inline std::string jesc(const std::string& s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') o += '\\'; if (c == '\n') { o += ' '; continue; } o += c; } return o; }
static int g_nviol = 0;
inline void report(const std::string& text, const std::string& key) {
    if (g_nviol++ > 12) return;
    printf("{\"viol\": \"%s\", \"key\": \"%s\"}\n", jesc(text).c_str(), jesc(key).c_str()); fflush(stdout);
}
inline std::vector<int> ints(const char* s) { std::vector<int> v; while (*s) { v.push_back((int)strtol(s, (char**)&s, 10)); if (*s == ',') s++; } return v; }
inline std::string S(long v) { return std::to_string(v); }
