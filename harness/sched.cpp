#include "sched.h"
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <map>
#include <unistd.h>
#include <new>
#include <climits>
#define NT __attribute__((no_sanitize("thread")))
extern "C" { void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_memalign(size_t, size_t); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t);
extern char __executable_start, etext; }
namespace sch {
template <class T> struct A { typedef T value_type; A() {} template <class U> A(const A<U>&) {} T* allocate(size_t n) { return (T*)__libc_malloc(n * sizeof(T)); } void deallocate(T* p, size_t) { __libc_free(p); } bool operator==(const A&) const { return true; } bool operator!=(const A&) const { return false; } };
template <class T> using vec = std::vector<T, A<T>>;
template <class K, class V> using map = std::map<K, V, std::less<K>, A<std::pair<const K, V>>>;
Policy pol; long regions, barriers, singles, switches, accesses, events; int max_team_seen;
std::vector<Problem> problems;
typedef uint32_t VC[MAXT];
struct Team; struct WS;
enum St { FREE, RUN, BARRIER, LOCK, ENDED, JOIN, EXITED };
struct LT { int id; sem_t sem; pthread_t th; bool started = false; St st = FREE; VC vc; Team* team = nullptr; int tnum = 0; long nsingle = 0, nws = 0; const void* waitobj = nullptr; void (*fn)(void*) = nullptr; void* data = nullptr; std::function<void()> body; int serial = 0; bool in = false; WS* ws = nullptr; LT* owner = nullptr; };
struct WS { long key; bool init = false; unsigned long long next, end, incr, chunk; bool up; int mode; int users = 0; bool isSections = false; };   // work-sharing construct
struct Team { int n = 1; LT* m[MAXT]; long single_max = 0, single_base = 0; Team* parent = nullptr; map<long, WS> ws; void* copypriv = nullptr; int ids = 0; };
static LT lt[MAXT]; static __thread LT* cur = nullptr; static bool active = false;
static bool multi = false;                      // C09 mode: several masters
static uint32_t era = 1;
// ------------------------------------------------------------------ shadow memory
struct Cell { uint32_t era, wclk, rclk, wpc, rpc; uint8_t wt, rt, fl, pad; };   // fl 1: fine (bytes), 2: rclk is a pool index
struct Page { uintptr_t key; Cell* c; };
static const int PT = 1 << 16; static Page pt[PT]; static uintptr_t lastk = ~0ul; static Cell* lastc;
static vec<uint32_t> pool, poolpc;
static map<uintptr_t, Cell*> fine;
static uint32_t vczero[MAXT];
static Cell* page(uintptr_t k) {
    if (k == lastk) return lastc;
    size_t h = (k * 0x9e3779b97f4a7c15ull) >> 48;
    for (;; h = (h + 1) & (PT - 1)) {
        if (pt[h].c && pt[h].key == k) { lastk = k; return lastc = pt[h].c; }
        if (!pt[h].c) { Cell* c = (Cell*)mmap(nullptr, 8192 * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if (c == MAP_FAILED) { fprintf(stderr, "shadow memory\n"); _exit(3); } pt[h].key = k; pt[h].c = c; lastk = k; return lastc = c; }
    }
}
static void race(uintptr_t pc1, uint32_t pc2, int t1, int t2, bool w1, bool w2) {
    if (problems.size() < 40) problems.push_back({"data race", pc1, pc2, t1, t2, w1, w2});
}
static inline void fresh(Cell& c) { c.era = era; c.wt = 255; c.rt = 255; c.fl &= 1; }
static inline void cellop(Cell& c, LT* me, bool write, uintptr_t pc) {
    if (c.era != era) fresh(c);
    const int t = me->id;
    if (!write) {
        if (c.wt != 255 && c.wt != t && c.wclk > me->vc[c.wt]) { race(pc, c.wpc, t, c.wt, false, true); }
        if (c.fl & 2) { pool[c.rclk * MAXT + t] = me->vc[t]; poolpc[c.rclk * MAXT + t] = (uint32_t)pc; return; }
        if (c.rt == 255 || c.rt == t || c.rclk <= me->vc[c.rt]) { c.rt = t; c.rclk = me->vc[t]; c.rpc = (uint32_t)pc; return; }
        uint32_t ix = pool.size() / MAXT; pool.resize(pool.size() + MAXT, 0); poolpc.resize(pool.size(), 0);
        pool[ix * MAXT + c.rt] = c.rclk; poolpc[ix * MAXT + c.rt] = c.rpc; pool[ix * MAXT + t] = me->vc[t]; poolpc[ix * MAXT + t] = (uint32_t)pc;
        c.fl |= 2; c.rclk = ix;
    } else {
        if (c.wt == t && c.wclk == me->vc[t] && c.rt == 255 && !(c.fl & 2)) return;
        if (c.wt != 255 && c.wt != t && c.wclk > me->vc[c.wt]) race(pc, c.wpc, t, c.wt, true, true);
        if (c.fl & 2) { for (int i = 0; i < MAXT; i++) if (i != t && pool[c.rclk * MAXT + i] > me->vc[i]) { race(pc, poolpc[c.rclk * MAXT + i], t, i, true, false); break; } }
        else if (c.rt != 255 && c.rt != t && c.rclk > me->vc[c.rt]) race(pc, c.rpc, t, c.rt, true, false);
        c.wt = t; c.wclk = me->vc[t]; c.wpc = (uint32_t)pc; c.rt = 255; c.fl &= ~2;
    }
}
static void slow(uintptr_t a, size_t n, bool write, uintptr_t pc, LT* me) {
    while (n) {
        uintptr_t g = a & ~7ul; size_t off = a - g, k = std::min(n, 8 - off);
        Cell& c = page(g >> 16)[(g & 0xffff) >> 3];
        if (k == 8 && !(c.fl & 1)) cellop(c, me, write, pc);
        else {
            if (!(c.fl & 1)) { Cell*& f = fine[g]; if (!f) f = (Cell*)__libc_malloc(8 * sizeof(Cell));
                if (c.fl & 2 && c.era == era) { for (int i = 0; i < 8; i++) { f[i] = c; if (i) { uint32_t ix = pool.size() / MAXT; pool.resize(pool.size() + MAXT); poolpc.resize(pool.size());
                    memcpy(&pool[ix * MAXT], &pool[c.rclk * MAXT], MAXT * 4); memcpy(&poolpc[ix * MAXT], &poolpc[c.rclk * MAXT], MAXT * 4); f[i].rclk = ix; } } }
                else for (int i = 0; i < 8; i++) { f[i] = c; f[i].fl &= 2; }
                c.fl |= 1; }
            Cell* f = fine[g]; for (size_t i = 0; i < k; i++) cellop(f[off + i], me, write, pc);
        }
        a += k; n -= k;
    }
}
static inline void acc(void* p, size_t n, bool write, void* ra) {
    LT* me = cur; if (!active || !me || !me->in) return;
    accesses++;
    uintptr_t a = (uintptr_t)p;
    if (!(a & 7)) {
        while (n >= 8) { Cell& c = page(a >> 16)[(a & 0xffff) >> 3]; if (c.fl & 1) break; cellop(c, me, write, (uintptr_t)ra); a += 8; n -= 8; }
        if (!n) return;
    }
    slow(a, n, write, (uintptr_t)ra, me);
}
void clear_range(void* p, size_t n) {
    uintptr_t a = (uintptr_t)p & ~7ul, e = (uintptr_t)p + n;
    for (; a < e; a += 8) { Cell& c = page(a >> 16)[(a & 0xffff) >> 3]; c.era = 0; if (c.fl & 1) { Cell* f = fine[a]; for (int i = 0; i < 8; i++) f[i].era = 0; } }
}
static void join(VC a, const VC b) { for (int i = 0; i < MAXT; i++) if (b[i] > a[i]) a[i] = b[i]; }
static void neweraif() { if (!multi) { era++; pool.clear(); poolpc.clear(); } }
// ------------------------------------------------------------------ scheduling
static long region_no, single_no;
static std::vector<int> choices; static Trace* tr = nullptr; static bool apoints = false; static int nmasters = 0;
static void hand(LT* to) { LT* me = cur; if (to == me) return; switches++; active = active; sem_post(&to->sem); while (sem_wait(&me->sem) && errno == EINTR); }
static void fatal(const char* what) { problems.push_back({what, 0, 0, cur ? cur->id : 0, 0, false, false}); }
static void release_barrier(Team* t, bool partial) {
    VC v; memset(v, 0, sizeof v);
    for (int i = 0; i < t->n; i++) if (t->m[i]->st == BARRIER) join(v, t->m[i]->vc);
    for (int i = 0; i < t->n; i++) if (t->m[i]->st == BARRIER) { join(t->m[i]->vc, v); t->m[i]->vc[t->m[i]->id]++; t->m[i]->st = RUN; }
    barriers++; if (!partial) neweraif();
}
static LT* pick_team(Team* t, LT* after) {
    int base = pol.rot % t->n; if (base < 0) base += t->n;
    int start = 0;
    if (after) for (int k = 0; k < t->n; k++) { int i = pol.rev ? ((base - k) % t->n + t->n) % t->n : (base + k) % t->n; if (t->m[i] == after) start = k + 1; }
    for (int k = 0; k < t->n; k++) { int q = (start + k) % t->n; int i = pol.rev ? ((base - q) % t->n + t->n) % t->n : (base + q) % t->n; if (t->m[i]->st == RUN) return t->m[i]; }
    return nullptr;
}
static void settle(Team* t) {        // nobody of the team can run: barrier complete, mismatch or deadlock
    int nb = 0, ne = 0, nl = 0; for (int i = 0; i < t->n; i++) { St s = t->m[i]->st; nb += s == BARRIER; ne += s == ENDED; nl += s == LOCK; if (s == RUN) return; }
    if (nb == t->n) { release_barrier(t, false); return; }
    if (nb && nb + ne == t->n) { fatal("threads of a team pass different numbers of barriers"); release_barrier(t, true); return; }
    if (nl) { fatal("deadlock in a team"); for (int i = 0; i < t->n; i++) if (t->m[i]->st == LOCK) t->m[i]->st = RUN; }
}
// C09: pick among all logical threads by the recorded choices
static LT* pick_global() {
    vec<LT*> c; LT* me = cur;
    if (me && me->st == RUN) c.push_back(me);
    for (int i = 0; i < MAXT; i++) if (&lt[i] != me && lt[i].st == RUN) c.push_back(&lt[i]);
    if (c.empty()) return nullptr;
    size_t k = 0;
    if (c.size() > 1 && tr) { size_t pos = tr->degree.size(); k = pos < choices.size() ? choices[pos] : 0; if (k >= c.size()) k = 0; tr->degree.push_back((int)c.size()); tr->taken.push_back((int)k); }
    return c[k];
}
static sem_t driver;
// current thread cannot go on (or yields): run somebody else
static void resched(bool yield) {
    LT* me = cur;
    if (multi) {
        for (;;) {
            LT* n = pick_global();
            if (n) { hand(n); return; }
            // all blocked: complete team barriers; otherwise deadlock
            bool prog = false;
            for (int i = 0; i < MAXT; i++) if (lt[i].team && lt[i].tnum == 0 && lt[i].team->n > 1 && (lt[i].st == BARRIER || lt[i].st == ENDED)) {
                Team* t = lt[i].team; int nb = 0, ne = 0; for (int j = 0; j < t->n; j++) { nb += t->m[j]->st == BARRIER; ne += t->m[j]->st == ENDED; }
                if (nb == t->n || (nb && nb + ne == t->n)) { if (nb != t->n) fatal("threads of a team pass different numbers of barriers"); release_barrier(t, true); prog = true; break; }
                if (ne == t->n) { lt[i].st = RUN; prog = true; break; }
            }
            if (prog) continue;
            bool alive = false; for (int i = 1; i < MAXT; i++) if (lt[i].st == LOCK || lt[i].st == BARRIER || lt[i].st == JOIN) alive = true;
            if (alive) { if (tr) tr->deadlock = true; fatal("deadlock"); }
            sem_post(&driver);
            if (me->st == EXITED) return;
            for (;;) pause();
        }
    }
    Team* t = me->team;
    LT* n = pick_team(t, yield ? me : nullptr);
    if (!n) { settle(t); n = pick_team(t, nullptr); }
    if (!n) { n = t->m[0]; }       // all ended: back to the master
    hand(n);
}
static long streak;
static void point() {
    if (!(multi && cur && cur->in && cur->st == RUN)) return;
    events++; LT* n;
    if (++streak > 20000) { n = nullptr; for (int k = 1; k < MAXT && !n; k++) { LT* l = &lt[(cur - lt + k) % MAXT]; if (l->st == RUN) n = l; } if (!n) n = cur; }   // fairness for busy waiting
    else n = pick_global();
    if (n != cur) { streak = 0; hand(n); }
}
static void* worker(void* p) {
    LT* me = (LT*)p; cur = me;
    for (;;) {
        while (sem_wait(&me->sem) && errno == EINTR);
        if (me->body) { me->in = true; me->body(); me->in = false; me->st = EXITED; me->body = nullptr; resched(false); if (multi) return nullptr; continue; }
        me->in = true; me->fn(me->data); me->in = false;
        me->st = ENDED; me->vc[me->id]++;
        // pass on without waiting for our own turn to come back here
        LT* n;
        if (multi) {
            Team* t = me->team; bool all = true; for (int i = 0; i < t->n; i++) if (t->m[i]->st != ENDED) all = false;
            if (all) t->m[0]->st = RUN;
            n = pick_global();
            if (!n) { for (int i = 0; i < t->n && !n; i++) if (t->m[i]->st == BARRIER) { int nb = 0, ne = 0; for (int j = 0; j < t->n; j++) { nb += t->m[j]->st == BARRIER; ne += t->m[j]->st == ENDED; } if (nb + ne == t->n) { fatal("threads of a team pass different numbers of barriers"); release_barrier(t, true); n = pick_global(); } } }
            if (!n) { fatal("deadlock"); sem_post(&driver); continue; }
        } else { Team* t = me->team; n = pick_team(t, nullptr); if (!n) { settle(t); n = pick_team(t, nullptr); } if (!n) n = t->m[0]; }
        switches++; sem_post(&n->sem);
    }
}
static void start(LT* l) { if (!l->started) { l->started = true; sem_init(&l->sem, 0, 0); pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 8 << 20); if (pthread_create(&l->th, &a, worker, l)) { fprintf(stderr, "thread\n"); _exit(3); } } }
static void ensure_main() { if (!cur) { for (int i = 0; i < MAXT; i++) lt[i].id = i; cur = &lt[0]; lt[0].started = true; sem_init(&lt[0].sem, 0, 0); lt[0].st = RUN; lt[0].in = true; lt[0].vc[0] = 1; active = true; } }
void begin() { ensure_main(); region_no = single_no = 0; era++; pool.clear(); poolpc.clear(); problems.clear(); for (auto& l : lt) { memset(l.vc, 0, sizeof l.vc); l.vc[l.id] = 1; } }
static int want_team(unsigned nt) {
    long k = region_no++; regions++;
    int n = pol.cyclic ? pol.teams[k % pol.teams.size()] : pol.teams[std::min<size_t>(k, pol.teams.size() - 1)];
    if (nt && (int)nt < n) n = nt; if (n < 1) n = 1; if (n > 64) n = 64; return n;
}
static void parallel(void (*fn)(void*), void* data, unsigned nt) {
    ensure_main(); LT* me = cur;
    int n = me->team ? 1 : want_team(nt);
    if (n > max_team_seen) max_team_seen = n;
    Team t; t.parent = me->team; t.n = n;
    const int tn = me->tnum; const long ns = me->nsingle, nw = me->nws; WS* ows = me->ws;
    if (n == 1) {
        t.m[0] = me; me->team = &t; me->tnum = 0; me->nsingle = me->nws = 0;
        fn(data);
        me->team = t.parent; me->tnum = tn; me->nsingle = ns; me->nws = nw; me->ws = ows; return;
    }
    int got = 0; t.m[got++] = me; t.single_base = single_no;
    for (int i = 1; i < MAXT && got < n; i++) if (&lt[i] != me && (lt[i].st == FREE || lt[i].st == ENDED) && !lt[i].team && !(multi && i <= nmasters) && (!multi || !lt[i].owner || lt[i].owner == me)) { t.m[got++] = &lt[i]; if (multi) lt[i].owner = me; }
    t.n = n = got;
    for (int i = 0; i < n; i++) { LT* l = t.m[i]; l->id = (int)(l - lt); l->team = &t; l->tnum = i; l->nsingle = l->nws = 0; l->fn = fn; l->data = data; if (i) { start(l); join(l->vc, me->vc); l->vc[l->id]++; } l->st = RUN; }
    me->vc[me->id]++; neweraif();
    // who runs first
    if (multi) { point(); } else { LT* f = pick_team(&t, nullptr); if (f != me) hand(f); }
    fn(data);
    me->st = ENDED;
    for (;;) {
        bool all = true; for (int i = 0; i < n; i++) if (t.m[i]->st != ENDED) all = false;
        if (all) break;
        resched(false);
        if (multi && me->st == RUN) me->st = ENDED;
    }
    me->st = RUN; single_no = t.single_base + t.single_max;
    for (int i = 1; i < n; i++) { join(me->vc, t.m[i]->vc); t.m[i]->team = nullptr; t.m[i]->st = FREE; }
    me->vc[me->id]++; neweraif();
    me->team = t.parent; me->tnum = tn; me->nsingle = ns; me->nws = nw; me->ws = ows;
}
static void barrier() {
    LT* me = cur; if (!me || !me->team || me->team->n == 1) { barriers++; return; }
    me->st = BARRIER;
    if (multi) { Team* t = me->team; bool all = true; for (int i = 0; i < t->n; i++) if (t->m[i]->st != BARRIER) all = false; if (all) { release_barrier(t, true); } }
    resched(false);
}
static bool single_start() {
    LT* me = cur; singles++; if (!me || !me->team) return true;
    if (me->team->n > 1) point(); long k = ++me->nsingle; Team* t = me->team;   // alone in its team: no other thread is involved
    if (!multi && pol.exec >= 0 && t->n > 1) { if (k > t->single_max) t->single_max = k; int e = t->single_base + k - 1 == pol.dev ? pol.exec2 : pol.exec; return me->tnum == e % t->n; }
    if (k > me->team->single_max) { me->team->single_max = k; return true; } return false;
}
// ------------------------------------------------------------------ locks, atomics
struct Sync { VC vc; LT* owner = nullptr; int depth = 0; Sync() { memset(vc, 0, sizeof vc); } };
static map<const void*, Sync> syncs;
static void acquire(const void* o) { if (cur) join(cur->vc, syncs[o].vc); }
static void release(const void* o, bool plus = true) { if (cur) { Sync& s = syncs[o]; join(s.vc, cur->vc); cur->vc[cur->id]++; } }
static void release_store(const void* o) { if (cur) { Sync& s = syncs[o]; memcpy(s.vc, cur->vc, sizeof s.vc); cur->vc[cur->id]++; } }
static void lock(const void* o, bool rec = false) {
    LT* me = cur; if (!me) return; point(); Sync& s = syncs[o];
    if (rec && s.owner == me) { s.depth++; return; }
    while (s.owner && s.owner != me) { me->st = LOCK; me->waitobj = o; if (!multi && !me->team) { fatal("deadlock"); break; } resched(false); me->st = RUN; }
    if (s.owner == me) fatal("a thread waits for a lock it holds");
    s.owner = me; s.depth = 1; acquire(o);
}
static bool trylock(const void* o) { LT* me = cur; if (!me) return true; point(); Sync& s = syncs[o]; if (s.owner) return false; s.owner = me; s.depth = 1; acquire(o); return true; }
static void wake(const void* o) { for (auto& l : lt) if (l.st == LOCK && l.waitobj == o) l.st = RUN; }
static void unlock(const void* o) { LT* me = cur; if (!me) return; Sync& s = syncs[o]; if (--s.depth > 0) return; release(o); s.owner = nullptr; wake(o); point(); }
// ------------------------------------------------------------------ work sharing
static Team solos[MAXT];
static WS* ws_enter(bool& first) { LT* me = cur; Team* t = me->team; if (!t) { t = &solos[me->id]; t->n = 1; t->ws.clear(); me->nws = 0; } WS& w = t->ws[++me->nws]; first = !w.init; w.init = true; w.users++; me->ws = &w; return &w; }
static bool ws_next(long long* is, long long* ie) {
    LT* me = cur; WS* w = me->ws; if (!w) return false;
    if (me->team && me->team->n > 1) { if (pol.chunks && !multi) resched(true); else point(); }
    const long long inc = (long long)w->incr; const long long end = (long long)w->end, nx = (long long)w->next;
    if (w->up ? nx >= end : nx <= end) return false;
    unsigned long long left = w->up ? ((unsigned long long)(end - nx) + inc - 1) / inc : ((unsigned long long)(nx - end) + (-inc) - 1) / (-inc);
    unsigned long long c = w->chunk ? w->chunk : 1;
    if (w->mode == 2) { unsigned long long g = (left + (me->team ? me->team->n : 1) - 1) / (me->team ? me->team->n : 1); if (g > c) c = g; }
    if (c > left) c = left;
    *is = nx; *ie = nx + (long long)c * inc; w->next = *ie; return true;
}
static bool ws_static(long long s, long long e, long long inc, long long chunk, long long* is, long long* ie);
static bool ws_start(long long s, long long e, long long inc, long long chunk, int mode, long long* is, long long* ie) {
    bool f; WS* w = ws_enter(f); if (f) { w->next = s; w->end = e; w->incr = inc; w->chunk = chunk; w->up = inc > 0; w->mode = mode; }
    return ws_next(is, ie);
}
// ------------------------------------------------------------------ explicit threads
Trace run_threads(const std::vector<std::function<void()>>& bodies, const std::vector<int>& ch, bool pa) {
    Trace t; t.degree.reserve(1 << 16); t.taken.reserve(1 << 16); problems.reserve(64); tr = &t; choices = ch; apoints = pa; multi = true; ensure_main(); sem_init(&driver, 0, 0);
    for (auto& l : lt) { memset(l.vc, 0, sizeof l.vc); l.vc[l.id] = 1; }
    LT* main = cur; main->st = FREE; main->in = false; main->team = nullptr; nmasters = (int)bodies.size();
    // logical threads 1..k are the masters; workers of their teams come after; the driver itself is not scheduled
    for (size_t i = 0; i < bodies.size(); i++) { LT* l = &lt[i + 1]; l->body = bodies[i]; start(l); l->st = RUN; l->team = nullptr; join(l->vc, main->vc); l->vc[l->id]++; }
    main->st = JOIN; cur = nullptr;
    // first choice: which master starts
    LT* save = nullptr; LT* n = pick_global(); (void)save;
    sem_post(&n->sem); while (sem_wait(&driver) && errno == EINTR);
    cur = main; main->st = RUN; main->in = true; tr = nullptr; return t;
}
}
using namespace sch;
#define RA __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void* p) { acc(p, n, false, RA); } void __tsan_write##n(void* p) { acc(p, n, true, RA); } \
 void __tsan_unaligned_read##n(void* p) { acc(p, n, false, RA); } void __tsan_unaligned_write##n(void* p) { acc(p, n, true, RA); } \
 void __tsan_volatile_read##n(void* p) { acc(p, n, false, RA); } void __tsan_volatile_write##n(void* p) { acc(p, n, true, RA); } \
 void __tsan_unaligned_volatile_read##n(void* p) { acc(p, n, false, RA); } void __tsan_unaligned_volatile_write##n(void* p) { acc(p, n, true, RA); } \
 void __tsan_read_write##n(void* p) { acc(p, n, false, RA); acc(p, n, true, RA); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { acc(p, n, false, RA); }
void __tsan_write_range(void* p, size_t n) { acc(p, n, true, RA); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) acc(p, 8, true, RA); }
void __tsan_vptr_read(void** p) { acc(p, 8, false, RA); }
static bool acqo(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST || mo == __ATOMIC_CONSUME; }
static bool relo(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
#define AT(b, T) \
 T __tsan_atomic##b##_load(const volatile T* a, int mo) { point(); T v = __atomic_load_n(a, __ATOMIC_SEQ_CST); if (acqo(mo)) acquire((void*)a); return v; } \
 void __tsan_atomic##b##_store(volatile T* a, T v, int mo) { point(); if (relo(mo)) release_store((void*)a); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##b##_exchange(volatile T* a, T v, int mo) { point(); if (acqo(mo)) acquire((void*)a); if (relo(mo)) release((void*)a); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##b##_fetch_add(volatile T* a, T v, int mo) { point(); if (acqo(mo)) acquire((void*)a); if (relo(mo)) release((void*)a); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##b##_fetch_sub(volatile T* a, T v, int mo) { point(); if (acqo(mo)) acquire((void*)a); if (relo(mo)) release((void*)a); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##b##_fetch_and(volatile T* a, T v, int mo) { point(); if (acqo(mo)) acquire((void*)a); if (relo(mo)) release((void*)a); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##b##_fetch_or(volatile T* a, T v, int mo) { point(); if (acqo(mo)) acquire((void*)a); if (relo(mo)) release((void*)a); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##b##_fetch_xor(volatile T* a, T v, int mo) { point(); if (acqo(mo)) acquire((void*)a); if (relo(mo)) release((void*)a); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
 int __tsan_atomic##b##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fo) { point(); if (acqo(mo)) acquire((void*)a); bool ok = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); if (ok && relo(mo)) release((void*)a); return ok; } \
 int __tsan_atomic##b##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fo) { return __tsan_atomic##b##_compare_exchange_strong(a, c, v, mo, fo); } \
 T __tsan_atomic##b##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fo) { __tsan_atomic##b##_compare_exchange_strong(a, &c, v, mo, fo); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { point(); if (cur) { static int f; acquire(&f); release(&f); } }
void __tsan_atomic_signal_fence(int) {}
// memory functions are not instrumented by the compiler
void* __real_memcpy(void*, const void*, size_t); void* __real_memset(void*, int, size_t); void* __real_memmove(void*, const void*, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { acc((void*)s, n, false, RA); acc(d, n, true, RA); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { acc((void*)s, n, false, RA); acc(d, n, true, RA); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { acc(d, n, true, RA); return __real_memset(d, c, n); }
// --- libgomp interface
void GOMP_parallel(void (*f)(void*), void* d, unsigned n, unsigned) { parallel(f, d, n); }
void GOMP_barrier() { barrier(); }
bool GOMP_barrier_cancel() { barrier(); return false; }
bool GOMP_single_start() { return single_start(); }
void* GOMP_single_copy_start() { if (single_start()) return nullptr; barrier(); return cur->team ? cur->team->copypriv : nullptr; }
void GOMP_single_copy_end(void* d) { if (cur->team) cur->team->copypriv = d; barrier(); }
static int cs, at; 
void GOMP_critical_start() { lock(&cs); } void GOMP_critical_end() { unlock(&cs); }
void GOMP_critical_name_start(void** p) { lock(p); } void GOMP_critical_name_end(void** p) { unlock(p); }
void GOMP_atomic_start() { lock(&at); } void GOMP_atomic_end() { unlock(&at); }
void GOMP_ordered_start() {} void GOMP_ordered_end() {}
void GOMP_taskwait() {} void GOMP_taskyield() {} void GOMP_taskgroup_start() {} void GOMP_taskgroup_end() {}
void GOMP_task(void (*fn)(void*), void* data, void (*cpyfn)(void*, void*), long asz, long aal, bool, unsigned, void**, int, void*) {
    if (cpyfn) { char* buf = (char*)__libc_malloc(asz + aal); char* a = (char*)(((uintptr_t)buf + aal - 1) & ~(uintptr_t)(aal - 1)); cpyfn(a, data); fn(a); __libc_free(buf); } else fn(data); }
#define LOOP(name, mode) \
 bool GOMP_loop_##name##_start(long s, long e, long i, long c, long* is, long* ie) { return ws_start(s, e, i, c, mode, (long long*)is, (long long*)ie); } \
 bool GOMP_loop_##name##_next(long* is, long* ie) { return ws_next((long long*)is, (long long*)ie); } \
 bool GOMP_loop_ull_##name##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long* is, unsigned long long* ie) { return ws_start(s, e, up ? i : (long long)i, c, mode, (long long*)is, (long long*)ie); } \
 bool GOMP_loop_ull_##name##_next(unsigned long long* is, unsigned long long* ie) { return ws_next((long long*)is, (long long*)ie); }
LOOP(dynamic, 1) LOOP(guided, 2) LOOP(nonmonotonic_dynamic, 1) LOOP(nonmonotonic_guided, 2) LOOP(static, 3)
bool GOMP_loop_runtime_start(long s, long e, long i, long* is, long* ie) { return ws_start(s, e, i, 1, 1, (long long*)is, (long long*)ie); }
bool GOMP_loop_runtime_next(long* is, long* ie) { return ws_next((long long*)is, (long long*)ie); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long* is, long* ie) { return ws_start(s, e, i, 1, 1, (long long*)is, (long long*)ie); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long* is, long* ie) { return ws_next((long long*)is, (long long*)ie); }
bool GOMP_loop_nonmonotonic_runtime_start(long s, long e, long i, long* is, long* ie) { return ws_start(s, e, i, 1, 1, (long long*)is, (long long*)ie); }
bool GOMP_loop_nonmonotonic_runtime_next(long* is, long* ie) { return ws_next((long long*)is, (long long*)ie); }
void GOMP_loop_end() { barrier(); } void GOMP_loop_end_nowait() {} bool GOMP_loop_end_cancel() { barrier(); return false; }
struct PL { void (*f)(void*); void* d; long s, e, i, c; int mode; };
static void pl(void* v) { PL* p = (PL*)v; bool f; WS* w = ws_enter(f); if (f) { w->next = p->s; w->end = p->e; w->incr = p->i; w->chunk = p->c; w->up = p->i > 0; w->mode = p->mode; } p->f(p->d); }
#define PLOOP(name, mode) void GOMP_parallel_loop_##name(void (*f)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) { PL p = {f, d, s, e, i, c, mode}; parallel(pl, &p, n); }
PLOOP(dynamic, 1) PLOOP(guided, 2) PLOOP(nonmonotonic_dynamic, 1) PLOOP(nonmonotonic_guided, 2) PLOOP(static, 3)
void GOMP_parallel_loop_runtime(void (*f)(void*), void* d, unsigned n, long s, long e, long i, unsigned) { PL p = {f, d, s, e, i, 1, 1}; parallel(pl, &p, n); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*f)(void*), void* d, unsigned n, long s, long e, long i, unsigned) { PL p = {f, d, s, e, i, 1, 1}; parallel(pl, &p, n); }
void GOMP_parallel_loop_nonmonotonic_runtime(void (*f)(void*), void* d, unsigned n, long s, long e, long i, unsigned) { PL p = {f, d, s, e, i, 1, 1}; parallel(pl, &p, n); }
unsigned GOMP_sections_next() { long long a, b; return ws_next(&a, &b) ? (unsigned)a : 0; }
unsigned GOMP_sections_start(unsigned n) { long long a, b; return ws_start(1, n + 1, 1, 1, 1, &a, &b) ? (unsigned)a : 0; }
void GOMP_sections_end() { barrier(); } void GOMP_sections_end_nowait() {}
void GOMP_parallel_sections(void (*f)(void*), void* d, unsigned n, unsigned c, unsigned) { PL p = {f, d, 1, (long)c + 1, 1, 1, 1}; parallel(pl, &p, n); }
bool GOMP_cancellation_point(int) { return false; } bool GOMP_cancel(int, bool) { return false; }
int omp_get_thread_num() { return cur && cur->team ? cur->tnum : 0; }
int omp_get_num_threads() { return cur && cur->team ? cur->team->n : 1; }
int omp_get_max_threads() { return cur && cur->team ? 1 : pol.max_threads; }
int omp_get_num_procs() { return pol.max_threads; } int omp_get_thread_limit() { return 64; }
int omp_in_parallel() { return cur && cur->team && cur->team->n > 1; }
void omp_set_num_threads(int) {} void omp_set_dynamic(int) {} int omp_get_dynamic() { return 0; } void omp_set_nested(int) {} int omp_get_nested() { return 0; }
int omp_get_level() { int k = 0; for (Team* t = cur ? cur->team : nullptr; t; t = t->parent) k++; return k; } int omp_get_active_level() { return omp_in_parallel(); }
void omp_set_max_active_levels(int) {} int omp_get_max_active_levels() { return 1; } void omp_set_schedule(int, int) {}
double omp_get_wtime() { static double t; return t += 1e-6; } double omp_get_wtick() { return 1e-9; }
void omp_init_lock(void**) {} void omp_destroy_lock(void**) {} void omp_set_lock(void** l) { lock(l); } void omp_unset_lock(void** l) { unlock(l); } int omp_test_lock(void** l) { return trylock(l); }
void omp_init_nest_lock(void**) {} void omp_destroy_nest_lock(void**) {} void omp_set_nest_lock(void** l) { lock(l, true); } void omp_unset_nest_lock(void** l) { unlock(l); }
// --- C++ static initialisation and pthread mutexes used by the program's own text
int __cxa_guard_acquire(long long* g) {
    if (!cur || !active) { return *(uint8_t*)g ? 0 : 1; }
    point();
    for (;;) { if (*(volatile uint8_t*)g) { acquire(g); return 0; } Sync& s = syncs[g]; if (!s.owner) { s.owner = cur; acquire(g); return 1; }
        if (s.owner == cur) { fatal("recursive static initialisation"); return 1; }
        cur->st = LOCK; cur->waitobj = g; if (!multi && !cur->team) { fatal("deadlock"); return 1; } resched(false); cur->st = RUN; }
}
void __cxa_guard_release(long long* g) { if (cur && active) { release(g); syncs[g].owner = nullptr; } *(uint8_t*)g = 1; if (cur && active) { wake(g); point(); } }
void __cxa_guard_abort(long long* g) { if (cur && active) { release(g); syncs[g].owner = nullptr; wake(g); } }
int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_unlock(pthread_mutex_t*); int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { if (cur && cur->in) { lock(m); return 0; } return __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { if (cur && cur->in) { unlock(m); return 0; } return __real_pthread_mutex_unlock(m); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { if (cur && cur->in) { return trylock(m) ? 0 : EBUSY; } return __real_pthread_mutex_trylock(m); }
int __real_pthread_once(pthread_once_t*, void (*)());
int __wrap_pthread_once(pthread_once_t* o, void (*f)()) { if (cur && cur->in) { if (__cxa_guard_acquire((long long*)o)) { f(); *(uint8_t*)o = 1; __cxa_guard_release((long long*)o); } return 0; } return __real_pthread_once(o, f); }
}
// --- allocation: a fresh block has no history (the allocator orders release and reuse)
static bool ours(void* ra) { return (char*)ra >= &__executable_start && (char*)ra < &etext; }
static void* fresh_block(void* p, size_t n, void* ra) { if (p && cur && cur->in && active) { clear_range(p, n); if (apoints && ours(ra)) point(); } return p; }
extern "C" {
void* malloc(size_t n) { return fresh_block(__libc_malloc(n), n, RA); }
void* calloc(size_t a, size_t b) { return fresh_block(__libc_calloc(a, b), a * b, RA); }
int posix_memalign(void** o, size_t al, size_t n) { void* p = __libc_memalign(al, n); if (!p) return ENOMEM; *o = fresh_block(p, n, RA); return 0; }
void* aligned_alloc(size_t al, size_t n) { return fresh_block(__libc_memalign(al, n), n, RA); }
void* memalign(size_t al, size_t n) { return fresh_block(__libc_memalign(al, n), n, RA); }
}
void* operator new(size_t n) { void* p = __libc_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return fresh_block(p, n, RA); }
void* operator new[](size_t n) { void* p = __libc_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return fresh_block(p, n, RA); }
void operator delete(void* p) noexcept { free(p); } void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); } void operator delete[](void* p, size_t) noexcept { free(p); }
