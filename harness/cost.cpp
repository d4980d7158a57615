// C19: work and memory of every transform, counted (see DESIGN.md).  Linked with the instrumented build; this file is the
// instrumentation runtime: it counts the bytes read and written and the calls of trigonometric functions.
//   cost KIND LISTFILE SHARD NSHARDS       lines "N backends"
#include "inst.h"
#include "alloc.h"
#include <cmath>
static unsigned long bytes_, trig_;
extern "C" {
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void*) { bytes_ += n; } void __tsan_write##n(void*) { bytes_ += n; } \
 void __tsan_unaligned_read##n(void*) { bytes_ += n; } void __tsan_unaligned_write##n(void*) { bytes_ += n; } \
 void __tsan_volatile_read##n(void*) { bytes_ += n; } void __tsan_volatile_write##n(void*) { bytes_ += n; } \
 void __tsan_unaligned_volatile_read##n(void*) { bytes_ += n; } void __tsan_unaligned_volatile_write##n(void*) { bytes_ += n; } \
 void __tsan_read_write##n(void*) { bytes_ += 2 * n; } void __tsan_unaligned_read_write##n(void*) { bytes_ += 2 * n; }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void*, size_t n) { bytes_ += n; } void __tsan_write_range(void*, size_t n) { bytes_ += n; }
void __tsan_vptr_update(void**, void*) { bytes_ += 8; } void __tsan_vptr_read(void**) { bytes_ += 8; }
#define AT(b, T) T __tsan_atomic##b##_load(const volatile T* a, int) { bytes_ += b / 8; return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
 void __tsan_atomic##b##_store(volatile T* a, T v, int) { bytes_ += b / 8; __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##b##_exchange(volatile T* a, T v, int) { bytes_ += b / 4; return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##b##_fetch_add(volatile T* a, T v, int) { bytes_ += b / 4; return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##b##_fetch_sub(volatile T* a, T v, int) { bytes_ += b / 4; return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##b##_fetch_and(volatile T* a, T v, int) { bytes_ += b / 4; return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##b##_fetch_or(volatile T* a, T v, int) { bytes_ += b / 4; return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##b##_fetch_xor(volatile T* a, T v, int) { bytes_ += b / 4; return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
 int __tsan_atomic##b##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { bytes_ += b / 4; return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
 int __tsan_atomic##b##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { bytes_ += b / 4; return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##b##_compare_exchange_val(volatile T* a, T c, T v, int, int) { bytes_ += b / 4; __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { bytes_ += 2 * n; return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { bytes_ += 2 * n; return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { bytes_ += n; return __real_memset(d, c, n); }
#define TR(f) double __real_##f(double); double __wrap_##f(double x) { trig_++; return __real_##f(x); } 
TR(sin) TR(cos) TR(tan) TR(exp)
void __real_sincos(double, double*, double*); void __wrap_sincos(double x, double* s, double* c) { trig_++; __real_sincos(x, s, c); }
}
// the unit of work of a length: N elements of 16 bytes, moved a few times per prime factor (2p + 4 for a factor p above 5,
// whose butterfly reads p elements for each); Bluestein: three transforms of the least power of two holding 2N - 1
static long held(char kind, long n) { if (kind != 'B') return n; long l = 1; while (l < 2 * n - 1) l *= 2; return l; }   // elements of the tables
static double unit(char kind, long n) {
    if (kind == 'B') { long l = 1; double lg = 0; while (l < 2 * n - 1) l *= 2, lg++; return 16.0 * l * (3 * (3 + 1.35 * lg) + 10) + 256; }
    double w = kind == 'C' ? 3 : 9; long m = kind == 'C' ? n : n / 2;
    for (long p = 2; m > 1; p = p * p > m ? m : p + 1) while (m % p == 0) { m /= p; w += p == 2 ? 1.35 : p <= 5 ? 2.1 : 2 * p + 4; }
    return 16.0 * n * w + 256; }
struct Lim { double op, setup, trig, mem; };
static double worst[4][4]; static long worstn[4][4];
int main(int argc, char** argv) {
    if (argc < 5) return 3;
    const char k = argv[1][0]; const int shard = atoi(argv[3]), ns = atoi(argv[4]); FILE* f = fopen(argv[2], "r"); if (!f) return 3;
    long n, states = 0, execs = 0; char bes[8]; int line = 0; Lim L; if (argc < 9) L = Lim{1e300, 1e300, 1e300, 1e300}; else L = Lim{atof(argv[5]), atof(argv[6]), atof(argv[7]), atof(argv[8])};
    while (fscanf(f, "%ld %7s", &n, bes) == 2) { if (line++ % ns != shard) continue;
        for (const char* q = bes; *q; q++) { const int b = *q == 's' ? 0 : *q == 'a' ? 1 : 2; const double u = unit(k, n); const long h = held(k, n);
            const std::string at = std::string(1, k) + " " + BEN[b] + " N=" + S(n); printf("{\"at\": \"%s\"}\n", at.c_str()); fflush(stdout); states++;
            auto see = [&](int w, double v, double limit, const char* what, const std::string& more) { if (v > worst[w][b]) { worst[w][b] = v; worstn[w][b] = n; }
                if (v > limit) { char t[300]; snprintf(t, sizeof t, "%s: %s%s is %.2f times the unit for this length (at most %.2f is in proportion)", at.c_str(), what, more.c_str(), v, limit); report(t, std::string("cost|") + what + "|" + k + BEN[b]); } };
            std::vector<double> x(xlen(k, n) + 1), y(ylen(k, n) + 1);
            for (int again = 0; again < (n <= 4096 ? 3 : 2); again++) {
            Inst* i; const long l0 = mem::live_bytes; 
            if (again) { mem::Arm m; i = new Inst(k, b, again == 2 ? 8 * n : 16); bytes_ = trig_ = 0; i->setup(n); } else { mem::Arm m; bytes_ = trig_ = 0; i = new Inst(k, b, n); }
            see(1, bytes_ / (16.0 * h + 512), L.setup, "work of setup", ""); see(2, trig_ / (double)(h + 16), L.trig, "number of trigonometric calls in setup", ""); see(3, (mem::live_bytes - l0) / (16.0 * h + 4096), L.mem, "memory held", ""); execs++;
            for (int op = 0; op < 8; op++) { if (!has_op(k, op) || (again && op != 0 && op != 7)) continue;
                for (int id = 0; id < 2; id++) { input(k, n, op, 1, x.data(), y.data()); if (id) { std::fill(x.begin(), x.end(), 0.0); std::fill(y.begin(), y.end(), 0.0); }
                    bytes_ = 0; { mem::Arm m; i->run(op, x.data(), y.data()); } see(0, bytes_ / u, L.op, "work of ", OPN[op]); execs++; } }
            { mem::Arm m; delete i; } mem::collect(); }
            if (g_nviol > 12) break; } }
    printf("{\"states\": %ld, \"execs\": %ld, \"worst\": {", states, execs);
    const char* W[4] = {"work", "setup", "trig", "memory"}; for (int w = 0; w < 4; w++) { printf("%s\"%s\": [", w ? ", " : "", W[w]); for (int b = 0; b < 3; b++) printf("%s[%.3f, %ld]", b ? ", " : "", worst[w][b], worstn[w][b]); printf("]"); }
    printf("}}\n"); return g_nviol ? 1 : 0;
}
