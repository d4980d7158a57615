// C18: the library inside a plugin that is loaded, used from any thread, unloaded and loaded again (see DESIGN.md).
//   plug PLUGIN.so KIND REQ N        every assignment of the events of one instance to threads, threads ending before or after the unloading
#ifdef PLUGIN
#include "inst.h"
#define API extern "C" __attribute__((visibility("default")))
API void* plug_create(char k, int be, int n) { try { return new Inst(k, be, n % 4 ? 0 : n + 2); } catch (...) { return nullptr; } }
API int plug_setup(void* p, int n) { try { ((Inst*)p)->setup(n); return 0; } catch (...) { return 1; } }
API int plug_run(void* p, unsigned long long* h) { Inst& i = *(Inst*)p; try { std::vector<double> x(xlen(i.kind, i.n) + 1), y(ylen(i.kind, i.n) + 1);
    for (int op = 0; op < 8; op++) { input(i.kind, i.n, op, 1, x.data(), y.data()); i.run(op, x.data(), y.data()); h[op] = hash(outp(i.kind, op, x.data(), y.data()), outn(i.kind, op, i.n)); } return 0; } catch (...) { return 1; } }
API int plug_destroy(void* p) { try { delete (Inst*)p; return 0; } catch (...) { return 1; } }
#else
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <dlfcn.h>
#include <pthread.h>
#include <semaphore.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
typedef unsigned long long u64;
struct Api { void* (*create)(char, int, int); int (*setup)(void*, int); int (*run)(void*, u64*); int (*destroy)(void*); };
struct Job { sem_t go, done; int ev; bool stop; pthread_t t; }; static Job J[2];
static Api A; static char kind; static int be, N, err; static void* obj; static u64 h[8];
static void event(int e) { switch (e) { case 0: obj = A.create(kind, be, N); err |= !obj; break; case 1: err |= A.setup(obj, N); break; case 2: err |= A.run(obj, h); break; case 3: err |= A.destroy(obj); obj = nullptr; } }
static void* worker(void* p) { Job& j = *(Job*)p; for (;;) { while (sem_wait(&j.go)) {} if (j.stop) return nullptr; event(j.ev); sem_post(&j.done); } }
static void start() { for (Job& j : J) { sem_init(&j.go, 0, 0); sem_init(&j.done, 0, 0); j.stop = false; if (pthread_create(&j.t, nullptr, worker, &j)) _exit(9); } }
static void stop() { for (Job& j : J) { j.stop = true; sem_post(&j.go); pthread_join(j.t, nullptr); } }
static int cycle(const char* so, const int* who) {   // one load - use - unload
    void* d = dlopen(so, RTLD_NOW | RTLD_LOCAL); if (!d) { fprintf(stderr, "%s\n", dlerror()); _exit(9); }
    *(void**)&A.create = dlsym(d, "plug_create"); *(void**)&A.setup = dlsym(d, "plug_setup"); *(void**)&A.run = dlsym(d, "plug_run"); *(void**)&A.destroy = dlsym(d, "plug_destroy");
    memset(h, 0, sizeof h); err = 0;
    for (int e = 0; e < 4 && !err; e++) { if (!who[e]) event(e); else { Job& j = J[who[e] - 1]; j.ev = e; sem_post(&j.go); while (sem_wait(&j.done)) {} } }
    dlclose(d); return err;
}
int main(int argc, char** argv) {
    if (argc < 5) return 3;
    kind = argv[2][0]; be = atoi(argv[3]); N = atoi(argv[4]); long execs = 0, events = 0; int nviol = 0;
    u64* sh = (u64*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); u64 ref[8]; bool have = false;
    // 3^4 assignments to the main thread and two others; late: threads outlive the plugin
    for (int code = 0; code < 81; code++) for (int late = 0; late < 3; late++) {
        int w[4]; for (int c = code, e = 0; e < 4; e++, c /= 3) w[e] = c % 3;
        const int w2[4] = {w[3], w[2], w[1], w[0]};
        printf("{\"at\": \"%c %d %d code %d late %d\"}\n", kind, be, N, code, late); fflush(stdout); memset(sh, 0, 4096);
        pid_t p = fork();
        if (!p) { alarm(60); int r = 0; start(); r |= cycle(argv[1], w); memcpy(sh, h, sizeof h);
            if (late == 0) { stop(); start(); } r |= cycle(argv[1], w2); memcpy(sh + 8, h, sizeof h); r |= cycle(argv[1], w); memcpy(sh + 16, h, sizeof h); if (late < 2) stop(); sh[24] = 1 + r; exit(0); }
        int s = 0; waitpid(p, &s, 0); execs++; events += 18;
        std::string what;
        if (sh[24] != 1) what = s ? "process ends with status " + std::to_string(s) : "a call fails"; else if (s) what = "process ends with status " + std::to_string(s) + " when it exits";
        if (what.empty() && !have) { memcpy(ref, sh, sizeof ref); have = true; }
        if (what.empty()) for (int c = 0; c < 3; c++) if (memcmp(ref, sh + 8 * c, sizeof ref)) what = "other results in load cycle " + std::to_string(c + 1);
        if (!what.empty() && nviol++ < 8) { std::string t = std::string("plugin ") + kind + " request " + argv[3] + " " + argv[4] + ": " + what + "; creation, setup, transforms, destruction on threads " + std::to_string(w[0]) + std::to_string(w[1]) + std::to_string(w[2]) + std::to_string(w[3]) + (late ? ", threads outlive the plugin" : "");
            printf("{\"viol\": \"%s\", \"key\": \"plug|%c%d|%d\"}\n", t.c_str(), kind, be, N); fflush(stdout); }
    }
    printf("{\"execs\": %ld, \"events\": %ld}\n", execs, events); return nviol ? 1 : 0;
}
#endif
