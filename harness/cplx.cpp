// C11: exhaustive enumeration of complex_t operations over an operand grid, all aliasing patterns, and all
// call-modify-call histories (the helpers carry attributes that let a compiler merge calls).
// Oracle: the mathematical definition in long double, with a bound of a few roundings of the terms involved.
#include "otfft.h"
#include <cstdio>
#include <cstring>
#include <cfloat>
#include <cmath>
#include <vector>
#include <string>
#include <limits>
using OTFFT::complex_t;
typedef long double ld;

static long states = 0, evals = 0, skipped = 0; static int nviol = 0;
static std::vector<double> G;

static void hexd(double d, char* b) { snprintf(b, 40, "%a", d); }
static void viol(const char* op, const char* pat, complex_t a, complex_t b, double gr, double gi, ld er, ld ei)
{
    if (nviol++ > 20) return;
    char x[6][40]; hexd(a.Re, x[0]); hexd(a.Im, x[1]); hexd(b.Re, x[2]); hexd(b.Im, x[3]); hexd(gr, x[4]); hexd(gi, x[5]);
    printf("{\"viol\": \"%s [%s] a=(%s,%s) b=(%s,%s): got (%s,%s), defined value (%.20Lg,%.20Lg)\", \"key\": \"%s/%s\"}\n",
           op, pat, x[0], x[1], x[2], x[3], x[4], x[5], er, ei, op, pat);
}
// got versus exact value e computed from terms whose magnitudes sum to m (m = 0: exactly rounded operation)
static bool same(double got, ld e, ld m)
{
    if (std::isnan(e)) return std::isnan(got);
    if (std::isinf(e)) return std::isinf(got) && std::signbit(got) == std::signbit(e);
    if (m == 0) { double d = (double)e; return d == got; }
    if (std::isnan(got)) return false;
    if (std::isinf(got)) return fabsl(e) + m > (ld)DBL_MAX * (1 - 8 * DBL_EPSILON);
    return fabsl((ld)got - e) <= 8 * (ld)DBL_EPSILON * m + 4 * (ld)4.9406564584124654e-324L;
}
// is a computation whose intermediate magnitudes are the given ones free of overflow in double precision?
static bool fits(ld m) { return !(std::isnan(m) || std::isinf(m) || m > (ld)DBL_MAX / 2); }

static void chk(const char* op, const char* pat, const complex_t& a, const complex_t& b, const complex_t& g, ld er, ld ei, ld mr, ld mi)
{
    evals++;
    if (!same(g.Re, er, mr) || !same(g.Im, ei, mi)) viol(op, pat, a, b, g.Re, g.Im, er, ei);
}
static void chks(const char* op, const char* pat, const complex_t& a, const complex_t& b, double g, ld e, ld m)
{
    evals++;
    if (!same(g, e, m)) viol(op, pat, a, b, g, 0, e, 0);
}
static bool fin(const complex_t& a) { return std::isfinite(a.Re) && std::isfinite(a.Im); }
static ld P(double x, double y) { return (ld)x * y; }
static ld A(ld x) { return fabsl(x); }

static void ex_mul(const char* pat, const complex_t& a, const complex_t& b, const complex_t& g)
{
    ld m = A(P(a.Re, b.Re)) + A(P(a.Im, b.Im)), n = A(P(a.Re, b.Im)) + A(P(a.Im, b.Re));
    if (!fin(a) || !fin(b) || !fits(m) || !fits(n)) { skipped++; return; }
    chk("multiply", pat, a, b, g, P(a.Re, b.Re) - P(a.Im, b.Im), P(a.Re, b.Im) + P(a.Im, b.Re), m + 1e-4930L, n + 1e-4930L);
}
// division is defined as a * conj(b) / |b|^2: representable operands whose |b|^2 neither overflows nor underflows
static void ex_div(const char* pat, const complex_t& a, const complex_t& b, const complex_t& g)
{
    ld m = A(P(a.Re, b.Re)) + A(P(a.Im, b.Im)), n = A(P(a.Im, b.Re)) + A(P(a.Re, b.Im)), d = P(b.Re, b.Re) + P(b.Im, b.Im);
    if (!fin(a) || !fin(b) || !fits(m) || !fits(n) || !fits(d) || d < 1e-280L || (m && m < 1e-280L) || (n && n < 1e-280L)) { skipped++; return; }
    ld er = (P(a.Re, b.Re) + P(a.Im, b.Im)) / d, ei = (P(a.Im, b.Re) - P(a.Re, b.Im)) / d;
    if (!fits(m / d) || !fits(n / d)) { skipped++; return; }
    chk("divide", pat, a, b, g, er, ei, m / d + 1e-4930L, n / d + 1e-4930L);
}
static void ex_sc(const char* op, const char* pat, const complex_t& a, double x, const complex_t& g, bool div)
{
    chk(op, pat, a, complex_t(x), g, div ? (ld)a.Re / x : P(a.Re, x), div ? (ld)a.Im / x : P(a.Im, x), 0, 0);
}
// a double rounded quotient/product: compare with the hardware's own correctly rounded one
static void sc(const char* op, const char* pat, const complex_t& a, double x, const complex_t& g, bool div)
{
    volatile double ar = a.Re, ai = a.Im, xx = x; volatile double r = div ? ar / xx : ar * xx, i = div ? ai / xx : ai * xx;
    evals++;
    if (!same(g.Re, (ld)r, 0) || !same(g.Im, (ld)i, 0)) viol(op, pat, a, complex_t(x), g.Re, g.Im, (ld)r, (ld)i);
}
static void addsub(const char* op, const char* pat, const complex_t& a, const complex_t& b, const complex_t& g, int s)
{
    volatile double ar = a.Re, ai = a.Im, br = b.Re, bi = b.Im; volatile double r = s > 0 ? ar + br : ar - br, i = s > 0 ? ai + bi : ai - bi;
    evals++;
    if (!same(g.Re, (ld)r, 0) || !same(g.Im, (ld)i, 0)) viol(op, pat, a, b, g.Re, g.Im, (ld)r, (ld)i);
}

static void binary(const complex_t& a, const complex_t& b)
{
    states++;
    addsub("add", "values", a, b, a + b, 1);
    addsub("subtract", "values", a, b, a - b, -1);
    ex_mul("values", a, b, a * b);
    ex_div("values", a, b, a / b);
    { complex_t z(a); complex_t& r = (z += b); addsub("+=", "distinct", a, b, z, 1); if (&r != &z) viol("+=", "returned reference", a, b, 0, 0, 0, 0); }
    { complex_t z(a); complex_t& r = (z -= b); addsub("-=", "distinct", a, b, z, -1); if (&r != &z) viol("-=", "returned reference", a, b, 0, 0, 0, 0); }
    { complex_t z(a); complex_t& r = (z *= b); ex_mul("*=", a, b, z); if (&r != &z) viol("*=", "returned reference", a, b, 0, 0, 0, 0); }
    // results assigned over an operand
    { complex_t z(a); z = z * b; ex_mul("z=z*b", a, b, z); }
    { complex_t z(b); z = a * z; ex_mul("z=a*z", a, b, z); }
    { complex_t z(a); z = z / b; ex_div("z=z/b", a, b, z); }
    { complex_t z(b); z = a / z; ex_div("z=a/z", a, b, z); }
    { complex_t z(b); z = a - z; addsub("subtract", "z=a-z", a, b, z, -1); }
    // operands in one array, overlapping the destination
    { complex_t v[2] = { a, b }; v[0] *= v[1]; ex_mul("array *=", a, b, v[0]); if (memcmp(&v[1], &b, sizeof b)) viol("*=", "modified its operand", a, b, v[1].Re, v[1].Im, 0, 0); }
    { complex_t v[2] = { a, b }; v[0] += v[1]; addsub("+=", "array", a, b, v[0], 1); if (memcmp(&v[1], &b, sizeof b)) viol("+=", "modified its operand", a, b, v[1].Re, v[1].Im, 0, 0); }
    { complex_t v[2] = { a, b }; v[0] -= v[1]; addsub("-=", "array", a, b, v[0], -1); if (memcmp(&v[1], &b, sizeof b)) viol("-=", "modified its operand", a, b, v[1].Re, v[1].Im, 0, 0); }
    // std::complex operands convert
    { std::complex<double> s(b.Re, b.Im); complex_t z(a); z += s; addsub("+=", "std::complex", a, b, z, 1); }
    { std::complex<double> s(b.Re, b.Im); complex_t z(a); z *= complex_t(s); ex_mul("*= std::complex", a, b, z); }
    // histories: compound assignments chained on one object
    { complex_t z(a), w(b); (z += w) -= b; complex_t t(a); t = t + b; addsub("chain", "+= -=", t, b, z, -1); }
}
static void scalar(const complex_t& a, double x)
{
    states++;
    sc("scale", "x*a", a, x, x * a, false);
    sc("unscale", "a/x", a, x, a / x, true);
    { complex_t z(a); complex_t& r = (z *= x); sc("scale", "*=", a, x, z, false); if (&r != &z) viol("*= x", "returned reference", a, a, 0, 0, 0, 0); }
    { complex_t z(a); complex_t& r = (z /= x); sc("unscale", "/=", a, x, z, true); if (&r != &z) viol("/= x", "returned reference", a, a, 0, 0, 0, 0); }
    { complex_t z(a); z = x * z; sc("scale", "z=x*z", a, x, z, false); }
    { complex_t z(a); z = z / x; sc("unscale", "z=z/x", a, x, z, true); }
    { complex_t v[2] = { a, complex_t(x, x) }; v[0] *= v[1].Im; sc("scale", "component of neighbour", a, x, v[0], false); }
    { complex_t z(x); if (!same(z.Re, x, 0) || z.Im != 0) viol("construct", "from double", z, a, z.Re, z.Im, x, 0); evals++; }
}
template <class F> static void hist(const char* op, const complex_t& a, const complex_t& b, F f)
{
    // call, overwrite the operand, call again through the same reference: the second result is that of b
    complex_t z(a); complex_t* p = &z;
    auto r1 = f(*p); p->Re = b.Re; p->Im = b.Im; auto r2 = f(*p);
    complex_t y(b), x(a); auto e1 = f(x), e2 = f(y);
    evals += 2;
    double d1[2] = {0, 0}, d2[2] = {0, 0}, c1[2] = {0, 0}, c2[2] = {0, 0};
    memcpy(d1, &r1, sizeof r1); memcpy(d2, &r2, sizeof r2); memcpy(c1, &e1, sizeof e1); memcpy(c2, &e2, sizeof e2);
    for (int k = 0; k < 2; k++)
        if (!same(d1[k], c1[k], 0) || !same(d2[k], c2[k], 0)) { viol(op, "call, modify, call", a, b, d2[0], d2[1], c2[0], c2[1]); return; }
}
static void unary(const complex_t& a)
{
    using namespace OTFFT;
    states++;
    ld r = a.Re, i = a.Im; bool f = fin(a);
    chks("Re", "", a, a, Re(a), r, 0); chks("Im", "", a, a, Im(a), i, 0);
    chk("conj", "", a, a, conj(a), r, -i, 0, 0);
    chk("neg", "", a, a, neg(a), -r, -i, 0, 0);
    chk("jx", "", a, a, jx(a), -i, r, 0, 0);
    chk("mjx", "", a, a, mjx(a), i, -r, 0, 0);
    { complex_t z(a); z = conj(z); chk("conj", "z=conj(z)", a, a, z, r, -i, 0, 0); }
    { complex_t z(a); z = jx(z); chk("jx", "z=jx(z)", a, a, z, -i, r, 0, 0); }
    { complex_t z(a); z = mjx(z); chk("mjx", "z=mjx(z)", a, a, z, i, -r, 0, 0); }
    { complex_t z(a); z = neg(z); chk("neg", "z=neg(z)", a, a, z, -r, -i, 0, 0); }
    ld n = r * r + i * i;
    if (f && fits(n)) {
        chks("norm", "", a, a, norm(a), n, n + 1e-4930L);
        if (n == 0 || n > 1e-290L) chks("abs", "", a, a, OTFFT::abs(a), sqrtl(n), sqrtl(n) + 1e-4930L);
        complex_t p = proj(a);
        chk("proj", "", a, a, p, 2 * r / (n + 1), 2 * i / (n + 1), A(2 * r / (n + 1)) + 1e-4930L, A(2 * i / (n + 1)) + 1e-4930L);
    } else skipped++;
    if (f) chks("arg", "", a, a, OTFFT::arg(a), atan2l(i, r), A(atan2l(i, r)) + 1e-4930L);
    if (f && A(r) < 1e300L && A(i) < 1e15L) {
        complex_t p = OTFFT::polar(a.Re, a.Im);
        chk("polar", "", a, a, p, r * cosl(i), r * sinl(i), A(r), A(r));
    }
    if (std::isfinite(a.Im) && A(i) < 1e15L) chk("expj", "", a, a, OTFFT::expj(a.Im), cosl(i), sinl(i), 1, 1);
    { std::complex<double> s = a; evals++; if (!same(s.real(), r, 0) || !same(s.imag(), i, 0)) viol("to std::complex", "", a, a, s.real(), s.imag(), r, i);
      complex_t b(s); chk("from std::complex", "", a, a, b, r, i, 0, 0); }
    { complex_t z(a.Re, a.Im); chk("construct", "", a, a, z, r, i, 0, 0); complex_t w(z); chk("copy", "", a, a, w, r, i, 0, 0);
      complex_t v; chk("default", "", a, a, v, 0, 0, 0, 0); v = z; chk("assign", "", a, a, v, r, i, 0, 0); v = v; chk("assign", "self", a, a, v, r, i, 0, 0); }
    // the right-hand side is the object itself or one of its components
    { complex_t z(a); z += z; addsub("+=", "self", a, a, z, 1); }
    { complex_t z(a); z -= z; addsub("-=", "self", a, a, z, -1); }
    { complex_t z(a); z *= z; ex_mul("*= self", a, a, z); }
    { complex_t z(a); z *= z.Re; sc("scale", "*= own Re", a, a.Re, z, false); }
    { complex_t z(a); z *= z.Im; sc("scale", "*= own Im", a, a.Im, z, false); }
    { complex_t z(a); z /= z.Re; sc("unscale", "/= own Re", a, a.Re, z, true); }
    { complex_t z(a); z /= z.Im; sc("unscale", "/= own Im", a, a.Im, z, true); }
    { complex_t z(a); z = z * z; ex_mul("z=z*z", a, a, z); }
    { complex_t z(a); z = z / z; ex_div("z=z/z", a, a, z); }
    { complex_t z(a); z = z.Re * z; sc("scale", "z=z.Re*z", a, a.Re, z, false); }
    { complex_t z(a); z = z.Im * z; sc("scale", "z=z.Im*z", a, a.Im, z, false); }
    { complex_t z(a); z = z / z.Re; sc("unscale", "z=z/z.Re", a, a.Re, z, true); }
    { complex_t z(a); z = z / z.Im; sc("unscale", "z=z/z.Im", a, a.Im, z, true); }
    { complex_t z(a); z += z.Re; addsub("+=", "own Re", a, complex_t(a.Re), z, 1); }
    { complex_t z(a); z -= z.Im; addsub("-=", "own Im", a, complex_t(a.Im), z, -1); }
    { complex_t z(a); z *= complex_t(z.Im, z.Re); ex_mul("*= swapped self", a, complex_t(a.Im, a.Re), z); }
    // reference views: the operand is reached through a pointer to double / an array of doubles
    { complex_t v[1] = { a }; double* d = &v[0].Re; v[0] *= d[1]; sc("scale", "*= through double*", a, a.Im, v[0], false); }
}
int main(int argc, char** argv)
{
    bool deep = argc > 1 && !strcmp(argv[1], "deep");
    const double inf = std::numeric_limits<double>::infinity(), nan = std::numeric_limits<double>::quiet_NaN();
    double base[] = { 0.0, -0.0, 1, -1, 2, -0.5, 3.141592653589793, -1.0 / 3, 1 + DBL_EPSILON, 1e150, -1e-150, 4.9406564584124654e-324, DBL_MAX, inf, nan };
    double more[] = { 0.5, -2, -3, 7, 1e16, -1e-16, 1 - DBL_EPSILON / 2, DBL_MIN, -DBL_MIN / 2, -DBL_MAX, -inf, 1e300, -1e-300, 1.5707963267948966, -3.141592653589793 };
    for (double d : base) G.push_back(d);
    if (deep) for (double d : more) G.push_back(d);
    std::vector<complex_t> Z;
    for (double r : G) for (double i : G) Z.push_back(complex_t(r, i));
    for (auto& a : Z) { unary(a); for (double x : G) scalar(a, x); }
    for (auto& a : Z) for (auto& b : Z) binary(a, b);
    for (auto& a : Z) for (auto& b : Z) {
        states++;
        hist("conj", a, b, [](const complex_t& z) { return OTFFT::conj(z); });
        hist("jx", a, b, [](const complex_t& z) { return OTFFT::jx(z); });
        hist("mjx", a, b, [](const complex_t& z) { return OTFFT::mjx(z); });
        hist("neg", a, b, [](const complex_t& z) { return OTFFT::neg(z); });
        hist("norm", a, b, [](const complex_t& z) { return OTFFT::norm(z); });
        hist("abs", a, b, [](const complex_t& z) { return OTFFT::abs(z); });
        hist("square", a, b, [](const complex_t& z) { return z * z; });
        hist("double", a, b, [](const complex_t& z) { return z + z; });
        hist("scale", a, b, [](const complex_t& z) { return z.Re * z; });
        if (!deep || (&a - &Z[0]) % 7 == 0) { hist("arg", a, b, [](const complex_t& z) { return OTFFT::arg(z); }); }
    }
    printf("{\"states\": %ld, \"evals\": %ld, \"skipped\": %ld}\n", states, evals, skipped);
    return nviol ? 1 : 0;
}
