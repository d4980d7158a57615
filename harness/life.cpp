// C18: the library at every stage of a process and on every thread (see DESIGN.md).
//   life KIND REQ N SHARD NSHARDS FORK MAXDISTINCT    driver: every assignment of the events of one instance to stages, one process each
// Stages, in the order in which a process passes through them:
enum Stage { EARLY, LATECTOR, MAIN1, T1A, T2, T1B, TEAM, TLS3, MAIN2, MAINTLS, ATEXIT, LATEDTOR, LASTDTOR, NST };
#ifdef LATE       // linked behind the library
void life_stage(int);
struct Late { Late() { life_stage(LATECTOR); } ~Late() { life_stage(LATEDTOR); } };
static Late late;
#else
#include "inst.h"
#include <pthread.h>
#include <semaphore.h>
#include <spawn.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
static const char* const SN[NST] = {"static constructor before the library's", "static constructor after the library's", "main", "thread 1", "thread 2 (thread 1 waiting)", "thread 1 again", "member of an OpenMP team", "thread-local destructor of thread 3", "main after all threads", "thread-local destructor of the main thread", "exit handler", "static destructor before the library's", "static destructor after the library's"};
static const char* const EN[4] = {"creation", "setup", "transforms", "destruction"};
extern char** environ;
// all state below is constant-initialised: usable from the first constructor to the last destructor
static int st[4] = {-1, -1, -1, -1}, forkat = -1, warm = -1, N = 0, be = 0; static char kind = 0; static Inst* inst = nullptr; static bool init = false, forked = false;
static void out(const char* s) { size_t n = strlen(s); while (n) { ssize_t k = write(1, s, n); if (k <= 0) _exit(9); s += k; n -= k; } }
static void read_cfg() { init = true; const char* e = getenv("LIFE"); if (e) sscanf(e, "%c %d %d %d %d %d %d %d %d", &kind, &be, &N, &st[0], &st[1], &st[2], &st[3], &forkat, &warm); }
static void event(int e) {
    char b[64];
    try { switch (e) {
        case 0: inst = new Inst(kind, be, N % 4 ? 0 : N + 2); break;
        case 1: inst->setup(N); break;
        case 2: { const size_t X = xlen(kind, N), Y = ylen(kind, N); double* x = (double*)malloc(8 * X + 8), *y = (double*)malloc(8 * Y + 8);
            for (int op = 0; op < 8; op++) { input(kind, N, op, 1, x, y); inst->run(op, x, y); snprintf(b, sizeof b, "%016llx\n", (unsigned long long)hash(outp(kind, op, x, y), outn(kind, op, N))); out(b); }
            free(x); free(y); } break;
        case 3: delete inst; inst = nullptr; break; }
    } catch (const std::exception& x) { out("exception "); out(x.what()); out("\n"); } catch (...) { out("exception\n"); }
}
void life_stage(int s) {
    if (!init) read_cfg();
    if (!kind) return;
    if (s == forkat) { pid_t p = fork(); if (p) { int w = 0; waitpid(p, &w, 0); if (WIFSIGNALED(w)) { signal(WTERMSIG(w), SIG_DFL); raise(WTERMSIG(w)); } _exit(WEXITSTATUS(w)); } forked = true; }
    if (s == warm) {     // a complete earlier use: another instance, its whole life
        const int M = N < 1000 ? N + 2 : N / 2 * 3;
        try { Inst w(kind, be, M); const size_t X = xlen(kind, M), Y = ylen(kind, M); double* x = (double*)malloc(8 * X + 8), *y = (double*)malloc(8 * Y + 8);
            for (int op = 0; op < 8; op++) { input(kind, M, op, 1, x, y); w.run(op, x, y); } free(x); free(y); } catch (...) { out("exception\n"); }
    }
    for (int e = 0; e < 4; e++) if (st[e] == s) event(e);
    if (s == LASTDTOR) out("end\n");
}
struct First { First() { life_stage(EARLY); } ~First() { life_stage(LASTDTOR); } };
static First first __attribute__((init_priority(101)));
struct Tls { int s = -1; ~Tls() { if (s >= 0) life_stage(s); } };
static thread_local Tls tls;
static void at_exit() { life_stage(ATEXIT); }
static sem_t a, b;
static void* thread1(void*) { life_stage(T1A); sem_post(&a); while (sem_wait(&b)) {} life_stage(T1B); return nullptr; }
static void* thread2(void*) { life_stage(T2); return nullptr; }
static void* thread3(void*) { tls.s = TLS3; return nullptr; }
static int subject() {
    alarm(60); atexit(at_exit); tls.s = MAINTLS;
    life_stage(MAIN1);
    pthread_t t, u; sem_init(&a, 0, 0); sem_init(&b, 0, 0);
    if (pthread_create(&t, nullptr, thread1, nullptr)) return 9; while (sem_wait(&a)) {}
    if (pthread_create(&u, nullptr, thread2, nullptr)) return 9; pthread_join(u, nullptr);
    sem_post(&b); pthread_join(t, nullptr);
    if (forked) life_stage(TEAM);
    else {
        #pragma omp parallel num_threads(2)
        {
            #pragma omp sections
            {
                #pragma omp section
                {}
                #pragma omp section
                life_stage(TEAM);
            }
        }
    }
    if (pthread_create(&t, nullptr, thread3, nullptr)) return 9; pthread_join(t, nullptr);
    life_stage(MAIN2);
    return 0;
}
int main(int argc, char** argv) {
    if (kind) return subject();
    if (argc < 8) return 3; const int maxdist = atoi(argv[7]);
    const char K = argv[1][0]; const int B = atoi(argv[2]), n = atoi(argv[3]); const long shard = atol(argv[4]), ns = atol(argv[5]); const int F = atoi(argv[6]);
    struct Res { std::string text; int status; };
    auto run = [&](const int* s, int f, int w = -1) -> Res {
        char cfg[128]; snprintf(cfg, sizeof cfg, "LIFE=%c %d %d %d %d %d %d %d %d", K, B, n, s[0], s[1], s[2], s[3], f, w);
        std::vector<char*> env; for (char** e = environ; *e; e++) env.push_back(*e); env.push_back(cfg); env.push_back(nullptr);
        int fd[2]; if (pipe2(fd, O_CLOEXEC)) _exit(3);
        posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa); posix_spawn_file_actions_adddup2(&fa, fd[1], 1);
        char* av[] = {argv[0], nullptr}; pid_t p; if (posix_spawn(&p, "/proc/self/exe", &fa, nullptr, av, env.data())) _exit(3);
        posix_spawn_file_actions_destroy(&fa); close(fd[1]); Res r; char buf[4096]; for (ssize_t k; (k = read(fd[0], buf, sizeof buf)) > 0;) r.text.append(buf, k); close(fd[0]);
        waitpid(p, &r.status, 0); return r; };
    const int plain[4] = {MAIN1, MAIN1, MAIN1, MAIN1}; long execs = 0, events = 0;
    printf("{\"at\": \"%c %s %d in main only\"}\n", K, BEN[B], n); fflush(stdout);
    const Res ref = run(plain, -1);
    if (ref.status || ref.text.size() != 8 * 17 + 4) report(std::string(1, K) + " " + BEN[B] + " " + S(n) + ": an instance used in main only fails (status " + S(ref.status) + "): " + ref.text.substr(0, 200), "life|main");
    long k = 0;
    for (int f = -1; f < NST; f++) { if ((f >= 0) != (F != 0) || (f >= 0 && (f < MAIN1 || f > MAIN2 || f == TEAM || f == T1A || f == T1B || f == T2 || f == TLS3))) continue;
      int s[4]; for (s[0] = 0; s[0] < NST; s[0]++) for (s[1] = s[0]; s[1] < NST; s[1]++) for (s[2] = s[1]; s[2] < NST; s[2]++) for (s[3] = s[2]; s[3] < NST; s[3]++) {
        if (f >= 0 && (s[0] >= f || s[3] < f)) continue;   // the instance lives across the fork
        if (1 + (s[1] > s[0]) + (s[2] > s[1]) + (s[3] > s[2]) > maxdist) continue;
        if (k++ % ns != shard) continue;
        std::string w = std::string(1, K) + " " + BEN[B] + " " + S(n) + ":"; for (int e = 0; e < 4; e++) w += std::string(e ? ", " : " ") + EN[e] + " in " + SN[s[e]]; if (f >= 0) w += std::string("; process forked before ") + SN[f];
        const Res r = run(s, f); execs++; events += 4;
        if (r.status) report(w + ": process ends with status " + S(r.status), std::string("life|crash|") + K + BEN[B] + S(n));
        else if (r.text != ref.text) report(w + ": other results than in main: " + r.text.substr(0, 120), std::string("life|result|") + K + BEN[B] + S(n));
        if (g_nviol > 12) break; } }
    // an earlier instance lived and died in another stage
    if (!F) for (int w = 0; w < NST; w++) for (int a = w; a < NST; a++) for (int z = a; z < NST; z++) { if (z > a && w != MAIN1 && w != EARLY) continue; if (k++ % ns != shard) continue;
        const int s[4] = {a, a, z, z}; const Res r = run(s, -1, w); execs++; events += 8; const std::string t = std::string(1, K) + " " + BEN[B] + " " + S(n) + ": an earlier instance used in " + SN[w] + ", creation and setup in " + SN[a] + ", transforms and destruction in " + SN[z];
        if (r.status) report(t + ": process ends with status " + S(r.status), std::string("life|crash|") + K + BEN[B] + S(n));
        else if (r.text != ref.text) report(t + ": other results than in main: " + r.text.substr(0, 120), std::string("life|result|") + K + BEN[B] + S(n));
        if (g_nviol > 12) break; }
    printf("{\"execs\": %ld, \"events\": %ld}\n", execs, events); return g_nviol ? 1 : 0;
}
#endif
