// A small OpenMP runtime: the entry points the compiler emits for -fopenmp,
// over ordinary threads. Linked instead of libgomp it either lets the workers
// run freely, or lets one run at a time in the order a given schedule says,
// switching at every runtime call and at every vomp::point().
// It reports what orders the workers (fork, join, locks, barriers) through `observe`.
#pragma once
#include <condition_variable>
#include <functional>
#include <map>
#include <mutex>
#include <pthread.h>
#include <string>
#include <vector>
namespace vomp {
void stuck();                       // every worker waits: supplied by the harness
struct Team {
    int n = 1; void (*fn)(void *) = nullptr; void *data = nullptr;
    // work-sharing constructs are told apart by how many each worker has met
    struct Loop { bool set = false; bool up = true; long next = 0, end = 0, incr = 1, chunk = 1; bool guided = false; int left = 0; };
    std::map<long, Loop> loops; std::map<long, int> singles; void *copyprivate = nullptr;
    int arrived = 0; long round = 0;
};
struct Self { Team *team = nullptr; int id = 0; long met = 0, met_single = 0; Team::Loop *loop = nullptr; long static_pos = 0; };
inline Self &self() { static thread_local Self s; return s; }
struct Runtime {
    std::mutex m; std::condition_variable cv;
    int threads = 4;
    bool controlled = false; const std::vector<int> *schedule = nullptr; size_t pos = 0;
    int current = 0; std::vector<char> alive; std::vector<const void *> blocked;
    std::map<const void *, int> held;
    std::function<void(const char *, int, const void *)> observe;
    std::map<std::string, void *> names;
    // persistent workers, so that thread-local state outlives a region
    struct Worker { pthread_t th; bool busy = false; Team *team = nullptr; int id = 0; };
    std::vector<Worker *> pool; std::condition_variable work; int running = 0;
    bool stop = false;
};
inline Runtime &rt() { static Runtime *r = new Runtime; return *r; }
inline void saw(const char *what, const void *arg = nullptr) { if (rt().observe) rt().observe(what, self().id, arg); }
// controlled mode: pass the turn on; the lock is held
inline void turn(std::unique_lock<std::mutex> &l, bool leaving = false) {
    Runtime &r = rt(); std::vector<int> can;
    for (size_t i = 0; i < r.alive.size(); i++) if (r.alive[i] && !r.blocked[i]) can.push_back((int)i);
    if (can.empty()) {
        bool waiting = false; for (char a : r.alive) waiting = waiting || a;
        if (waiting) stuck();
        r.current = -1; r.cv.notify_all(); return;
    }
    int want = r.schedule && r.pos < r.schedule->size() ? (*r.schedule)[r.pos++] : leaving || !r.alive[self().id] || r.blocked[self().id] ? 0 : -1;
    int next = self().id;
    if (want >= 0) { next = want < (int)r.alive.size() && r.alive[want] && !r.blocked[want] ? want : can[want % can.size()]; }
    r.current = next; r.cv.notify_all();
    if (!leaving) r.cv.wait(l, [&] { return r.current == self().id; });
}
inline bool inside() { Team *t = self().team; return t && t->n > 1; }
inline void point() { Runtime &r = rt(); if (!r.controlled || !inside()) return; std::unique_lock<std::mutex> l(r.m); turn(l); }
inline void run_member(Team *t, int id) {
    Runtime &r = rt(); Self saved = self(); self() = Self(); self().team = t; self().id = id;
    if (r.controlled) { std::unique_lock<std::mutex> l(r.m); if (id == 0) turn(l); else r.cv.wait(l, [&] { return r.current == id; }); }
    t->fn(t->data);
    if (r.controlled) { std::unique_lock<std::mutex> l(r.m); r.alive[id] = 0; turn(l, true); }
    self() = saved;
}
inline void *worker_main(void *p) {
    Runtime &r = rt(); Runtime::Worker *w = (Runtime::Worker *)p;
    for (;;) {
        { std::unique_lock<std::mutex> l(r.m); r.work.wait(l, [&] { return w->busy; }); }
        run_member(w->team, w->id);
        { std::lock_guard<std::mutex> l(r.m); w->busy = false; r.running--; r.work.notify_all(); }
    }
    return nullptr;
}
inline void parallel(void (*fn)(void *), void *data, unsigned n, Team *given = nullptr) {
    Runtime &r = rt();
    if (!n) n = inside() ? 1 : (unsigned)r.threads;
    Team own; Team *t = given ? given : &own; t->n = (int)n; t->fn = fn; t->data = data;
    if (n == 1 || inside()) { t->n = 1; Self saved = self(); int id = saved.id; self() = Self(); self().team = t; (void)id; fn(data); self() = saved; return; }
    saw("fork", (const void *)(long)n);
    {
        std::lock_guard<std::mutex> l(r.m);
        r.alive.assign(n, 1); r.blocked.assign(n, nullptr); r.current = 0; r.running = (int)n - 1;
        while (r.pool.size() < n - 1) { auto *w = new Runtime::Worker; r.pool.push_back(w); pthread_create(&w->th, nullptr, worker_main, w); }
        for (unsigned i = 1; i < n; i++) { r.pool[i - 1]->team = t; r.pool[i - 1]->id = (int)i; r.pool[i - 1]->busy = true; }
        r.work.notify_all();
    }
    run_member(t, 0);
    { std::unique_lock<std::mutex> l(r.m); r.work.wait(l, [&] { return r.running == 0; }); }
    saw("join");
}
inline void acquire(const void *lock) {
    Runtime &r = rt();
    { std::unique_lock<std::mutex> l(r.m);
      if (r.controlled && inside()) turn(l);
      while (r.held.count(lock)) {
          if (r.controlled && inside()) { r.blocked[self().id] = lock; turn(l); }
          else r.cv.wait(l);
      }
      r.held[lock] = self().id; }
    saw("lock", lock);
}
inline void release(const void *lock) {
    Runtime &r = rt(); saw("unlock", lock);
    std::unique_lock<std::mutex> l(r.m); r.held.erase(lock);
    for (auto &b : r.blocked) if (b == lock) b = nullptr;
    r.cv.notify_all();
    if (r.controlled && inside()) turn(l);
}
inline void barrier() {
    Runtime &r = rt(); Team *t = self().team; if (!inside()) return;
    saw("arrive", t);
    { std::unique_lock<std::mutex> l(r.m); long me = t->round;
      if (++t->arrived == t->n) { t->arrived = 0; t->round++; for (auto &b : r.blocked) if (b == t) b = nullptr; r.cv.notify_all(); if (r.controlled) turn(l); }
      else if (r.controlled) { r.blocked[self().id] = t; turn(l); }
      else r.cv.wait(l, [&] { return t->round != me; }); }
    saw("depart", t);
}
// loops handed out piecewise
inline bool loop_next(long *b, long *e) {
    point(); Runtime &r = rt(); std::lock_guard<std::mutex> g(r.m); Team::Loop *l = self().loop;
    long total = l->incr > 0 ? (l->end - l->next + l->incr - 1) / l->incr : (l->next - l->end - l->incr - 1) / -l->incr;
    if (total <= 0) return false;
    long k = l->guided ? std::max(l->chunk, total / (2 * (self().team ? self().team->n : 1))) : l->chunk;
    if (k > total) k = total;
    *b = l->next; l->next += k * l->incr; *e = l->next; return true;
}
inline bool loop_start(long start, long end, long incr, long chunk, bool guided, long *b, long *e) {
    { Runtime &r = rt(); std::lock_guard<std::mutex> g(r.m); Team *t = self().team; static thread_local Team solo; if (!t) t = self().team = &solo;
      Team::Loop &l = t->loops[self().met++];
      if (!l.set) { l.set = true; l.next = start; l.end = end; l.incr = incr; l.chunk = chunk < 1 ? 1 : chunk; l.guided = guided; }
      self().loop = &l; }
    return loop_next(b, e);
}
} // namespace vomp
extern "C" {
void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned) { vomp::parallel(fn, data, n); }
void GOMP_barrier() { vomp::barrier(); }
void GOMP_critical_start() { vomp::acquire((void *)1); }
void GOMP_critical_end() { vomp::release((void *)1); }
void GOMP_critical_name_start(void **p) { vomp::acquire(p); }
void GOMP_critical_name_end(void **p) { vomp::release(p); }
void GOMP_atomic_start() { vomp::acquire((void *)2); }
void GOMP_atomic_end() { vomp::release((void *)2); }
bool GOMP_single_start() {
    if (!vomp::inside()) return true;
    vomp::point(); std::lock_guard<std::mutex> g(vomp::rt().m); return vomp::self().team->singles[vomp::self().met_single++]++ == 0;
}
#define VOMP_LOOP(kind, g) \
    bool GOMP_loop_##kind##_start(long s, long e, long i, long c, long *b, long *f) { return vomp::loop_start(s, e, i, c, g, b, f); } \
    bool GOMP_loop_##kind##_next(long *b, long *f) { return vomp::loop_next(b, f); } \
    bool GOMP_loop_ull_##kind##_start(bool up, unsigned long s, unsigned long e, unsigned long i, unsigned long c, unsigned long *b, unsigned long *f) { (void)up; return vomp::loop_start((long)s, (long)e, (long)i, (long)c, g, (long *)b, (long *)f); } \
    bool GOMP_loop_ull_##kind##_next(unsigned long *b, unsigned long *f) { return vomp::loop_next((long *)b, (long *)f); } \
    void GOMP_parallel_loop_##kind(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned) { \
        vomp::Team t; auto &l = t.loops[0]; l.set = true; l.next = s; l.end = e; l.incr = i; l.chunk = c < 1 ? 1 : c; l.guided = g; \
        struct D { void (*fn)(void *); void *d; vomp::Team::Loop *l; } a{fn, d, &l}; \
        vomp::parallel([](void *p) { D *a = (D *)p; vomp::self().loop = a->l; vomp::self().met = 1; a->fn(a->d); }, &a, n, &t); }
VOMP_LOOP(dynamic, false)
VOMP_LOOP(guided, true)
VOMP_LOOP(nonmonotonic_dynamic, false)
VOMP_LOOP(nonmonotonic_guided, true)
bool GOMP_loop_runtime_start(long s, long e, long i, long *b, long *f) { return vomp::loop_start(s, e, i, 1, false, b, f); }
bool GOMP_loop_runtime_next(long *b, long *f) { return vomp::loop_next(b, f); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long *b, long *f) { return vomp::loop_start(s, e, i, 1, false, b, f); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long *b, long *f) { return vomp::loop_next(b, f); }
bool GOMP_loop_ull_maybe_nonmonotonic_runtime_start(bool, unsigned long s, unsigned long e, unsigned long i, unsigned long *b, unsigned long *f) { return vomp::loop_start((long)s, (long)e, (long)i, 1, false, (long *)b, (long *)f); }
bool GOMP_loop_ull_maybe_nonmonotonic_runtime_next(unsigned long *b, unsigned long *f) { return vomp::loop_next((long *)b, (long *)f); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned fl) { GOMP_parallel_loop_dynamic(fn, d, n, s, e, i, 1, fl); }
void GOMP_parallel_loop_runtime(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned fl) { GOMP_parallel_loop_dynamic(fn, d, n, s, e, i, 1, fl); }
void GOMP_loop_end() { vomp::barrier(); }
void GOMP_loop_end_nowait() {}
unsigned GOMP_sections_start(unsigned n) { long b, e; return vomp::loop_start(1, (long)n + 1, 1, 1, false, &b, &e) ? (unsigned)b : 0; }
unsigned GOMP_sections_next() { long b, e; return vomp::loop_next(&b, &e) ? (unsigned)b : 0; }
void GOMP_sections_end() { vomp::barrier(); }
void GOMP_sections_end_nowait() {}
void GOMP_parallel_sections(void (*fn)(void *), void *d, unsigned n, unsigned c, unsigned fl) { GOMP_parallel_loop_dynamic(fn, d, n, 1, (long)c + 1, 1, 1, fl); }
// tasks run where they are met
void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align, bool, unsigned, void **, int, void *) {
    if (cpy) { std::vector<char> buf(size + align); char *a = (char *)(((unsigned long)buf.data() + align - 1) & ~(unsigned long)(align - 1)); cpy(a, data); fn(a); } else fn(data);
}
void GOMP_taskwait() {}
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() {}
int omp_get_thread_num() { vomp::point(); return vomp::self().id; }
int omp_get_num_threads() { vomp::Team *t = vomp::self().team; return t ? t->n : 1; }
int omp_get_max_threads() { return vomp::rt().threads; }
void omp_set_num_threads(int n) { vomp::rt().threads = n < 1 ? 1 : n; }
int omp_in_parallel() { return vomp::inside(); }
int omp_get_num_procs() { return 8; }
int omp_get_level() { return vomp::inside() ? 1 : 0; }
int omp_get_dynamic() { return 0; }
void omp_set_dynamic(int) {}
int omp_get_nested() { return 0; }
void omp_set_nested(int) {}
int omp_get_thread_limit() { return 1 << 20; }
double omp_get_wtime() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec; }
double omp_get_wtick() { return 1e-9; }
void omp_init_lock(void **l) { *l = nullptr; }
void omp_destroy_lock(void **) {}
void omp_set_lock(void **l) { vomp::acquire(l); }
void omp_unset_lock(void **l) { vomp::release(l); }
void omp_init_nest_lock(void **) {}
}
