// A small OpenMP (libgomp ABI) runtime on plain pthreads.  The race detector
// understands every synchronisation in it, and it explores schedules a real
// runtime rarely produces: the team is any size from 1 to the number requested
// (the standard allows fewer), its members start in random order after random
// delays, and every barrier and work-share hand-out may be delayed.
#include <pthread.h>
#include <sched.h>
#include <unistd.h>
#include <time.h>
#include <atomic>
#include <cstdint>
#include <cstdlib>
#include <map>
#include <vector>

namespace {
typedef unsigned long long ull;
struct Ws { std::atomic<long> next; std::atomic<ull> unext; long end = 0, incr = 1, chunk = 1; ull uend = 0, uincr = 1, uchunk = 1; bool up = true; int sched = 0; int single = 0; void *copy = nullptr; std::atomic<int> section; int nsections = 0; };
struct Team {
    int n; void (*fn)(void *); void *data;
    pthread_barrier_t bar; pthread_mutex_t mu; std::map<long, Ws *> ws;
};
struct Tls { Team *team = nullptr; int id = 0; long wsno = 0; Ws *cur = nullptr; long stat = 0; int nthreads = 0; int level = 0; uint64_t rng = 0x1234567; };
thread_local Tls t;
std::atomic<long> gRegions{0}, gThreads{0};
pthread_mutex_t gCrit = PTHREAD_MUTEX_INITIALIZER, gAtomic = PTHREAD_MUTEX_INITIALIZER;
uint64_t rnd() { t.rng += 0x9E3779B97F4A7C15ull; uint64_t z = t.rng; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
void perturb() {
    switch (rnd() % 6) {
    case 0: sched_yield(); break;
    case 1: usleep((useconds_t)(rnd() % 60)); break;
    case 2: for (volatile int i = (int)(rnd() % 2000); i > 0; i--) ; break;
    default: break;
    }
}
struct Arg { Team *team; int id; uint64_t seed; int nthreads, level; };
void *member(void *p) {
    Arg a = *(Arg *)p;
    t.team = a.team; t.id = a.id; t.rng = a.seed; t.nthreads = a.nthreads; t.level = a.level; t.wsno = 0; t.cur = nullptr;
    perturb();
    a.team->fn(a.team->data);
    return nullptr;
}
void runTeam(void (*fn)(void *), void *data, unsigned want) {
    int mx = want ? (int)want : t.nthreads ? t.nthreads : 8;
    if (mx > 16) mx = 16;
    int n = rnd() % 8 ? mx : 1 + (int)(rnd() % (unsigned)mx);
    if (t.level > 1) n = 1;
    Team T; T.n = n; T.fn = fn; T.data = data;
    pthread_barrier_init(&T.bar, nullptr, (unsigned)n);
    pthread_mutex_init(&T.mu, nullptr);
    gRegions.fetch_add(1, std::memory_order_relaxed); gThreads.fetch_add(n, std::memory_order_relaxed);
    std::vector<pthread_t> th((size_t)n);
    std::vector<Arg> args((size_t)n);
    std::vector<int> order;
    for (int i = 1; i < n; i++) order.push_back(i);
    for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[rnd() % i]);
    Tls save = t;
    for (int i : order) {
        args[(size_t)i] = Arg{&T, i, rnd(), save.nthreads, save.level + 1};
        if (pthread_create(&th[(size_t)i], nullptr, member, &args[(size_t)i])) _exit(91);
    }
    Tls mine = t;
    t.team = &T; t.id = 0; t.wsno = 0; t.cur = nullptr; t.level = save.level + 1;
    perturb();
    fn(data);
    uint64_t r = t.rng;
    t = mine; t.rng = r;
    for (int i : order) pthread_join(th[(size_t)i], nullptr);
    for (auto &w : T.ws) delete w.second;
    pthread_barrier_destroy(&T.bar);
    pthread_mutex_destroy(&T.mu);
}
Team *solo() {                     // work-sharing outside a region: a team of one
    static thread_local Team *s = nullptr;
    if (!s) { s = new Team; s->n = 1; s->fn = nullptr; pthread_barrier_init(&s->bar, nullptr, 1); pthread_mutex_init(&s->mu, nullptr); }
    return s;
}
Team *team() { return t.team ? t.team : solo(); }
template <class F> Ws *enter(F init) {
    Team *T = team();
    long no = t.wsno++;
    perturb();
    pthread_mutex_lock(&T->mu);
    Ws *&w = T->ws[no];
    if (!w) { w = new Ws; w->next = 0; w->unext = 0; w->section = 0; init(*w); }
    t.cur = w;
    pthread_mutex_unlock(&T->mu);
    t.stat = 0;
    return t.cur;
}
bool nextL(long *a, long *b) {
    Ws &w = *t.cur;
    perturb();
    long s, e;
    if (w.sched == 0 && w.chunk <= 0) {            // static, no chunk
        if (t.stat++) return false;
        long first = w.next.load(std::memory_order_relaxed), n = w.incr > 0 ? (w.end - first + w.incr - 1) / w.incr : (w.end - first + w.incr + 1) / w.incr;
        if (n < 0) n = 0;
        long T = team()->n, q = n / T, r = n % T, lo = t.id * q + (t.id < r ? t.id : r), c = q + (t.id < r);
        if (!c) return false;
        *a = first + lo * w.incr; *b = first + (lo + c) * w.incr;
        return true;
    }
    long ch = w.chunk <= 0 ? 1 : w.chunk;
    if (w.sched == 0) {
        long first = w.next.load(std::memory_order_relaxed);
        s = first + (t.stat++ * team()->n + t.id) * ch * w.incr;
    } else s = w.next.fetch_add(ch * w.incr, std::memory_order_relaxed);
    e = s + ch * w.incr;
    if (w.incr > 0) { if (s >= w.end) return false; if (e > w.end) e = w.end; }
    else { if (s <= w.end) return false; if (e < w.end) e = w.end; }
    *a = s; *b = e;
    return true;
}
bool nextU(ull *a, ull *b) {
    Ws &w = *t.cur;
    perturb();
    ull first = w.unext.load(std::memory_order_relaxed);
    if (w.sched == 0 && !w.uchunk) {
        if (t.stat++) return false;
        ull n = w.up ? (w.uend > first ? (w.uend - first + w.uincr - 1) / w.uincr : 0) : (first > w.uend ? (first - w.uend + (0 - w.uincr) - 1) / (0 - w.uincr) : 0);
        ull T = (ull)team()->n, q = n / T, r = n % T, id = (ull)t.id, lo = id * q + (id < r ? id : r), c = q + (id < r);
        if (!c) return false;
        *a = first + lo * w.uincr; *b = first + (lo + c) * w.uincr;
        return true;
    }
    ull ch = w.uchunk ? w.uchunk : 1, s;
    if (w.sched == 0) s = first + ((ull)t.stat++ * (ull)team()->n + (ull)t.id) * ch * w.uincr;
    else s = w.unext.fetch_add(ch * w.uincr, std::memory_order_relaxed);
    ull e = s + ch * w.uincr;
    if (w.up) { if (s >= w.uend) return false; if (e > w.uend) e = w.uend; }
    else { if ((long long)(s - w.uend) <= 0) return false; if ((long long)(e - w.uend) < 0) e = w.uend; }
    *a = s; *b = e;
    return true;
}
bool startL(int sched, long s, long e, long i, long c, long *a, long *b) {
    enter([&](Ws &w) { w.next = s; w.end = e; w.incr = i; w.chunk = c; w.sched = sched; });
    return nextL(a, b);
}
bool startU(int sched, bool up, ull s, ull e, ull i, ull c, ull *a, ull *b) {
    enter([&](Ws &w) { w.unext = s; w.uend = e; w.uincr = i; w.uchunk = c; w.up = up; w.sched = sched; });
    return nextU(a, b);
}
void barrier() { if (t.team) { perturb(); pthread_barrier_wait(&t.team->bar); perturb(); } }
// combined parallel-loop constructs: every member finds work-share 0 prepared
struct PL { void (*fn)(void *); void *data; int sched; long s, e, i, c; };
void plMember(void *p) {
    PL *q = (PL *)p;
    enter([&](Ws &w) { w.next = q->s; w.end = q->e; w.incr = q->i; w.chunk = q->c; w.sched = q->sched; });
    q->fn(q->data);
}
void parLoop(void (*fn)(void *), void *data, unsigned n, int sched, long s, long e, long i, long c) {
    PL q{fn, data, sched, s, e, i, c};
    runTeam(plMember, &q, n);
}
}

extern "C" {
void hx_gomp_seed(uint64_t s) { t.rng = s; }
void hx_gomp_stats(long *r, long *n) { *r = gRegions; *n = gThreads; }

void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned) { runTeam(fn, data, n); }
void GOMP_barrier() { barrier(); }
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }
bool GOMP_barrier_cancel() { barrier(); return false; }
bool GOMP_loop_end_cancel() { barrier(); return false; }
void GOMP_critical_start() { pthread_mutex_lock(&gCrit); }
void GOMP_critical_end() { pthread_mutex_unlock(&gCrit); }
void GOMP_critical_name_start(void **p) {
    // one mutex per name, created on first use
    void *m = __atomic_load_n(p, __ATOMIC_ACQUIRE);
    if (!m) {
        pthread_mutex_t *x = (pthread_mutex_t *)malloc(sizeof *x);
        pthread_mutex_init(x, nullptr);
        if (__atomic_compare_exchange_n(p, &m, (void *)x, false, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) m = x; else free(x);
    }
    pthread_mutex_lock((pthread_mutex_t *)m);
}
void GOMP_critical_name_end(void **p) { pthread_mutex_unlock((pthread_mutex_t *)__atomic_load_n(p, __ATOMIC_ACQUIRE)); }
void GOMP_atomic_start() { pthread_mutex_lock(&gAtomic); }
void GOMP_atomic_end() { pthread_mutex_unlock(&gAtomic); }
bool GOMP_single_start() { bool first = false; Team *T = team(); Ws *w = enter([](Ws &) {}); pthread_mutex_lock(&T->mu); first = !w->single; w->single = 1; pthread_mutex_unlock(&T->mu); return first; }
void *GOMP_single_copy_start() { if (GOMP_single_start()) return nullptr; barrier(); return t.cur->copy; }
void GOMP_single_copy_end(void *d) { t.cur->copy = d; barrier(); }
unsigned GOMP_sections_start(unsigned n) { enter([&](Ws &w) { w.nsections = (int)n; }); int k = t.cur->section.fetch_add(1, std::memory_order_relaxed); return k < t.cur->nsections ? (unsigned)k + 1 : 0; }
unsigned GOMP_sections_next() { int k = t.cur->section.fetch_add(1, std::memory_order_relaxed); return k < t.cur->nsections ? (unsigned)k + 1 : 0; }
void GOMP_sections_end() { barrier(); }
void GOMP_sections_end_nowait() {}
void GOMP_loop_end() { barrier(); }
void GOMP_loop_end_nowait() {}
#define LOOPS(NAME, SCHED) \
    bool GOMP_loop_##NAME##_start(long s, long e, long i, long c, long *a, long *b) { return startL(SCHED, s, e, i, c, a, b); } \
    bool GOMP_loop_##NAME##_next(long *a, long *b) { return nextL(a, b); } \
    bool GOMP_loop_ull_##NAME##_start(bool up, ull s, ull e, ull i, ull c, ull *a, ull *b) { return startU(SCHED, up, s, e, i, c, a, b); } \
    bool GOMP_loop_ull_##NAME##_next(ull *a, ull *b) { return nextU(a, b); } \
    void GOMP_parallel_loop_##NAME(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned) { parLoop(fn, d, n, SCHED, s, e, i, c); }
LOOPS(static, 0)
LOOPS(dynamic, 1)
LOOPS(guided, 1)
LOOPS(nonmonotonic_dynamic, 1)
LOOPS(nonmonotonic_guided, 1)
#define RTLOOPS(NAME) \
    bool GOMP_loop_##NAME##_start(long s, long e, long i, long *a, long *b) { return startL(1, s, e, i, 1, a, b); } \
    bool GOMP_loop_##NAME##_next(long *a, long *b) { return nextL(a, b); } \
    bool GOMP_loop_ull_##NAME##_start(bool up, ull s, ull e, ull i, ull *a, ull *b) { return startU(1, up, s, e, i, 1, a, b); } \
    bool GOMP_loop_ull_##NAME##_next(ull *a, ull *b) { return nextU(a, b); } \
    void GOMP_parallel_loop_##NAME(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned) { parLoop(fn, d, n, 1, s, e, i, 1); }
RTLOOPS(runtime)
RTLOOPS(nonmonotonic_runtime)
RTLOOPS(maybe_nonmonotonic_runtime)

int omp_get_thread_num() { return t.team ? t.id : 0; }
int omp_get_num_threads() { return t.team ? t.team->n : 1; }
int omp_get_max_threads() { return t.nthreads ? t.nthreads : 8; }
void omp_set_num_threads(int n) { if (n > 0) t.nthreads = n; }
int omp_get_num_procs() { return 8; }
int omp_in_parallel() { return t.team && t.team->n > 1; }
int omp_get_level() { return t.level; }
void omp_set_dynamic(int) {}
int omp_get_dynamic() { return 1; }
void omp_set_nested(int) {}
int omp_get_nested() { return 0; }
void omp_set_max_active_levels(int) {}
int omp_get_max_active_levels() { return 2; }
int omp_get_thread_limit() { return 16; }
void omp_set_schedule(int, int) {}
double omp_get_wtime() { struct timespec s; clock_gettime(CLOCK_MONOTONIC, &s); return (double)s.tv_sec + 1e-9 * (double)s.tv_nsec; }
double omp_get_wtick() { return 1e-9; }
typedef struct { unsigned char x[4]; } omp_lock_t_;
static pthread_mutex_t gLocks[64];
static pthread_once_t gOnce = PTHREAD_ONCE_INIT;
static void initLocks() { for (auto &m : gLocks) pthread_mutex_init(&m, nullptr); }
static std::atomic<unsigned> gLockNo{0};
void omp_init_lock(omp_lock_t_ *l) { pthread_once(&gOnce, initLocks); unsigned n = gLockNo++ % 64; l->x[0] = (unsigned char)n; }
void omp_destroy_lock(omp_lock_t_ *) {}
void omp_set_lock(omp_lock_t_ *l) { pthread_mutex_lock(&gLocks[l->x[0] % 64]); }
void omp_unset_lock(omp_lock_t_ *l) { pthread_mutex_unlock(&gLocks[l->x[0] % 64]); }
int omp_test_lock(omp_lock_t_ *l) { return pthread_mutex_trylock(&gLocks[l->x[0] % 64]) == 0; }
}
