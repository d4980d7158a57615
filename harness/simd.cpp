// C17: the public memory helpers simd_malloc/simd_free and simd_array.
//   simd DEPTH        every operation sequence to DEPTH on a simd_array, with every allocation failing or not, against a reference state
// The two halves are compiled with different instruction-set options by the check (OTHER: the second translation unit).
#include "otfft_complex.h"
#include "alloc.h"
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
using namespace OTFFT;
#ifdef __AVX512F__
enum { AL = 64 };
#elif defined(__AVX__)
enum { AL = 32 };
#else
enum { AL = 16 };
#endif
#ifdef OTHER
void* other_malloc(size_t n) { return simd_malloc(n); }
void other_free(void* p) { simd_free(p); }
#else
void* other_malloc(size_t n); void other_free(void* p);
static long states = 0, trans = 0; static int nviol = 0; static std::string cur;
static void bad(const std::string& what) { if (nviol++ > 12) return; std::string c; for (char ch : what + " -- " + cur) if (ch != '"' && ch != '\\') c += ch; printf("{\"viol\": \"%s\", \"key\": \"simd|%s\"}\n", c.c_str(), what.substr(0, 40).c_str()); fflush(stdout); }
static void ledger(long live, const char* when) {
    if (mem::bad_free) { bad(std::string(when) + ": " + mem::bad_msg); mem::bad_free = 0; }
    if (mem::live != live) bad(std::string(when) + ": " + std::to_string(mem::live) + " blocks held instead of " + std::to_string(live));
    if (mem::guard && !mem::slack_ok()) bad(std::string(when) + ": memory around a block was overwritten");
}
struct Odd { unsigned char c[3]; };
// the object under test and what it should be: no block, or a block of n elements whose values are known
template <class T> struct Sys { simd_array<T>* a = nullptr; bool block = false; int n = 0; unsigned seed = 0; };
template <class T> static T val(unsigned seed, int i) { T t; unsigned char* b = (unsigned char*)&t; for (size_t k = 0; k < sizeof(T); k++) b[k] = (unsigned char)(seed * 31 + i * 7 + k * 13 + 1) & 0x3f; return t; }
template <class T> static void fill(Sys<T>& s, unsigned seed) { s.seed = seed; T* q = &*s.a; for (int i = 0; i < s.n; i++) if (i & 1) (*s.a)[i] = val<T>(seed, i); else q[i] = val<T>(seed, i); }
template <class T> static void look(Sys<T>& s) {
    if (!s.a) { ledger(0, "no object"); return; }
    const simd_array<T>& c = *s.a; T* q = &c; trans++;
    if ((q != nullptr) != s.block || q != s.a->p) { bad(s.block ? "the array lost its block" : "an empty array points at memory"); return; }
    ledger(s.block, "object with its block");
    if (s.block && (uintptr_t)q % AL) bad("block of an array is not aligned to " + std::to_string(AL) + " bytes");
    for (int i = 0; i < s.n && s.block; i++) { T want = val<T>(s.seed, i); if (memcmp(&q[i], &want, sizeof(T)) || (const void*)&c[i] != (const void*)(q + i) || (void*)&(*s.a)[i] != (void*)(q + i)) { bad("element " + std::to_string(i) + " of " + std::to_string(s.n) + " changed"); break; } }
}
static const int NS[] = {0, 1, 2, 5, 300};
static const int NN = 5;
// actions: 0 construct empty; 1..NN construct(n); then setup(n); then failing construct / failing setup; destroy(); rewrite; destruct
enum { K = 1 + 2 * NN + 2 + 3 };
template <class T> static void act(Sys<T>& s, int a, int pos) {
    trans++; alignas(64) static unsigned char store[sizeof(simd_array<T>) + 64];
    auto kill = [&] { if (s.a) { mem::Arm m; s.a->~simd_array<T>(); } s.a = nullptr; s.block = false; s.n = 0; };
    auto sz = [&](int i) { return " (" + std::to_string(NS[i]) + ")"; };
    int n = -1; bool construct = false, fail = false;
    if (a == 0) { cur += " create()"; kill(); mem::Arm m; s.a = new (store) simd_array<T>(); return; }
    a--;
    if (a < NN) { cur += " create" + sz(a); construct = true; n = NS[a]; } else if (a < 2 * NN) { cur += " setup" + sz(a - NN); n = NS[a - NN]; }
    else if (a == 2 * NN) { cur += " create, no memory"; construct = fail = true; n = 7; }
    else if (a == 2 * NN + 1) { cur += " setup, no memory"; fail = true; n = 7; }
    else if (a == 2 * NN + 2) { cur += " destroy"; if (s.a) { mem::Arm m; s.a->destroy(); } s.block = false; s.n = 0; return; }
    else if (a == 2 * NN + 3) { cur += " write"; if (s.a && s.block) fill(s, pos + 5); return; }
    else { cur += " ~"; kill(); return; }
    if (construct) kill(); else if (!s.a) return;
    mem::reset_calls(); mem::fail_at = fail ? 0 : -1; mem::fail_persist = 1; int out = 0;
    try { mem::Arm m; if (construct) { s.a = nullptr; new (store) simd_array<T>(n); s.a = (simd_array<T>*)store; } else s.a->setup(n); } catch (const std::bad_alloc&) { out = 1; } catch (...) { out = 2; }
    mem::fail_at = -1;
    if (out != (fail ? 1 : 0)) bad(fail ? "lack of memory is not reported by std::bad_alloc" : "unexpected exception");
    if (out && !construct && s.a && s.block && s.a->p) return;   // a failed set-up may keep the former block or leave the array empty
    s.block = !out; s.n = out ? 0 : n;
    if (s.block) fill(s, pos);
}
template <class T> static void sequences(const char* name, int depth) {
    long total = 1; for (int i = 0; i < depth; i++) total *= K;
    for (long code = 0; code < total; code++) { Sys<T> s; cur = std::string(name) + ":"; long c = code; states++; const int before = nviol;
        for (int i = 0; i < depth && nviol == before; i++, c /= K) { act(s, c % K, i); look(s); }
        cur += " ~"; if (s.a) { mem::Arm m; s.a->~simd_array<T>(); } ledger(0, "after destruction"); mem::live = mem::live_bytes = 0; if (code % 64 == 0 || mem::guard) mem::collect();
        if (nviol > 12) return; }
}
// blocks: every size, whole block usable, alignment, release by either translation unit
static void blocks() {
    for (int g = 0; g <= 2; g++) { mem::guard = g;
        for (size_t n = 0; n < 1200; n++) for (int how = 0; how < 4; how++) { cur = "block of " + std::to_string(n) + " bytes" + (how & 1 ? ", allocated elsewhere" : "") + (how & 2 ? ", released elsewhere" : ""); states++; trans += 2;
            void* p; { mem::Arm m; p = how & 1 ? other_malloc(n) : simd_malloc(n); }
            if (!p) { bad("no memory returned"); continue; }
            if ((uintptr_t)p % (how & 1 ? 16 : AL)) bad("block is not aligned");
            memset(p, 0x5a, n); ledger(1, "block"); { mem::Arm m; if (how & 2) other_free(p); else simd_free(p); } ledger(0, "released block"); mem::collect(); } }
    mem::guard = 0; { mem::Arm m; simd_free(nullptr); other_free(nullptr); } ledger(0, "release of a null pointer");
    cur = "two blocks"; for (size_t a = 1; a < 200; a += 3) for (size_t b = 1; b < 200; b += 3) { char *p, *q; { mem::Arm m; p = (char*)simd_malloc(a); q = (char*)simd_malloc(b); } states++; if (!p || !q || (p < q + b && q < p + a)) bad("blocks overlap"); { mem::Arm m; simd_free(p); ledger(1, "one of two"); simd_free(q); } ledger(0, "both"); mem::collect(); }
}
// sizes: the request for n elements is n times the element size however large n is; what cannot be satisfied is reported
static volatile size_t asked; 
template <class T> static void sizes(const char* name) {
    for (int sh = 0; sh < 31; sh++) for (int d = -1; d <= 1; d++) for (int how = 0; how < 2; how++) { const long n = (1l << sh) + d; if (n < 0 || n > 2147483647l) continue;
        cur = std::string(name) + (how ? " setup(" : " create(") + std::to_string(n) + ")"; states++; trans++; mem::reset_calls(); mem::fail_at = 0; mem::fail_persist = 1; mem::last_size = 0; int out = 0;
        try { mem::Arm m; if (how) { simd_array<T> a; a.setup((int)n); } else { simd_array<T> a((int)n); } } catch (const std::bad_alloc&) { out = 1; } catch (...) { out = 2; }
        mem::fail_at = -1; if (out != 1) bad("lack of memory is not reported by std::bad_alloc"); if (mem::last_size < (size_t)n * sizeof(T)) bad("too little memory requested: " + std::to_string(mem::last_size)); ledger(0, "after failure"); }
    for (int n : {-1, -2147483647 - 1}) { cur = std::string(name) + " create(" + std::to_string(n) + ")"; states++; int out = 0; try { mem::Arm m; simd_array<T> a(n); } catch (const std::bad_alloc&) { out = 1; } catch (...) { out = 2; } if (out != 1) bad("a request that cannot be satisfied is not reported by std::bad_alloc"); mem::collect(); }
}
int main(int argc, char** argv) {
    const int depth = argc > 1 ? atoi(argv[1]) : 4;
    printf("{\"at\": \"blocks\"}\n"); blocks(); printf("{\"at\": \"sizes\"}\n"); sizes<complex_t>("complex_t"); sizes<double>("double"); sizes<short>("short"); sizes<Odd>("3 bytes");
    printf("{\"at\": \"sequences\"}\n"); fflush(stdout);
    for (int g = 0; g <= 2; g++) { mem::guard = g; const int d = g ? depth - 1 : depth; sequences<complex_t>("complex_t", d); sequences<double>("double", d - 1); sequences<Odd>("3 bytes", d - 1); }
    printf("{\"states\": %ld, \"transitions\": %ld}\n", states, trans); return nviol ? 1 : 0;
}
#endif
