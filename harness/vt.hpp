// Trace writer and directed value generation shared by all harnesses.
// A harness drives the public API of the library and logs one JSON line per
// call; TLC decides whether the log is a behaviour of the specification.
#pragma once
#include <atomic>
#include <functional>
#include <thread>
#include <gmp.h>
#include <algorithm>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <functional>
#include <string>
#include <sys/time.h>
#include <unistd.h>
#include <vector>

namespace vt {

// ---------------------------------------------------------------- randomness
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return next() % n; }
    bool chance(int num, int den) { return below(den) < (uint64_t)num; }
};
// a length: mostly below `small`, now and then one on either side of a power of two or of ten
inline int len_of(Rng &g, int small) {
    static const int big[] = {9, 10, 11, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 128, 129, 255, 256, 257};
    return g.chance(1, 15) ? big[g.below(g.chance(1, 3) ? 20 : 9)] : (int)g.below(small);
}
inline uint64_t env_u64(const char *n, uint64_t d) { const char *s = getenv(n); return s && *s ? strtoull(s, nullptr, 10) : d; }
inline uint64_t seed() { return env_u64("VERIF_SEED", 1); }
inline bool thorough() { const char *s = getenv("VERIF_TIER"); return s && std::string(s) == "thorough"; }
// scale a count with the tier
#ifdef VT_THREADS
inline int N(int quick, int deep) { return thorough() ? std::min(deep, 3 * quick) : quick > 3 ? quick / 2 : quick; }   // much slower there
#else
inline int N(int quick, int deep) { return thorough() ? deep : quick; }
#endif

// ------------------------------------------------------------------ naturals
// RAII wrapper, so that harnesses do not need gmpxx.
struct Z {
    mpz_t v;
    Z() { mpz_init(v); }
    Z(unsigned long x) { mpz_init_set_ui(v, x); }
    Z(int x) { mpz_init_set_si(v, x); }
    Z(long x) { mpz_init_set_si(v, x); }
    explicit Z(const char *s, int base = 10) { mpz_init_set_str(v, s, base); }
    Z(const Z &o) { mpz_init_set(v, o.v); }
    Z &operator=(const Z &o) { mpz_set(v, o.v); return *this; }
    ~Z() { mpz_clear(v); }
};
inline Z operator+(const Z &a, const Z &b) { Z r; mpz_add(r.v, a.v, b.v); return r; }
inline Z operator-(const Z &a, const Z &b) { Z r; mpz_sub(r.v, a.v, b.v); return r; }
inline Z operator*(const Z &a, const Z &b) { Z r; mpz_mul(r.v, a.v, b.v); return r; }
inline Z operator%(const Z &a, const Z &b) { Z r; mpz_mod(r.v, a.v, b.v); return r; }
inline Z operator/(const Z &a, const Z &b) { Z r; mpz_fdiv_q(r.v, a.v, b.v); return r; }
inline int cmp(const Z &a, const Z &b) { return mpz_cmp(a.v, b.v); }
inline bool operator==(const Z &a, const Z &b) { return cmp(a, b) == 0; }
inline bool operator<(const Z &a, const Z &b) { return cmp(a, b) < 0; }
inline Z pow2(unsigned long k) { Z r; mpz_setbit(r.v, k); return r; }
inline Z zpow(const Z &a, unsigned k) { Z r; mpz_pow_ui(r.v, a.v, k); return r; }
inline Z inv(const Z &a, const Z &m) { Z r; mpz_invert(r.v, a.v, m.v); return r; }
inline Z powm(const Z &a, const Z &e, const Z &m) { Z r; mpz_powm(r.v, a.v, e.v, m.v); return r; }
inline size_t bits(const Z &a) { return mpz_sgn(a.v) == 0 ? 0 : mpz_sizeinbase(a.v, 2); }
inline Z zrand(Rng &g, const Z &m) { // uniform-ish in [0,m)
    Z r; size_t n = (bits(m) + 64) / 64 + 1;
    for (size_t i = 0; i < n; i++) { mpz_mul_2exp(r.v, r.v, 64); Z w((unsigned long)g.next()); mpz_add(r.v, r.v, w.v); }
    return r % m;
}
inline Z from_limbs(const uint64_t *d, size_t n) { Z r; mpz_import(r.v, n, -1, 8, 0, 0, d); return r; }
inline void to_limbs(const Z &a, uint64_t *d, size_t n) {
    memset(d, 0, n * 8); size_t c = 0; std::vector<uint64_t> t(n + mpz_size(a.v) + 1);
    mpz_export(t.data(), &c, -1, 8, 0, 0, a.v); for (size_t i = 0; i < n && i < c; i++) d[i] = t[i];
}
inline std::vector<uint8_t> bytes_of(const Z &a) {
    std::vector<uint8_t> b((bits(a) + 7) / 8); size_t c = 0;
    if (!b.empty()) mpz_export(b.data(), &c, -1, 1, 0, 0, a.v);
    return b;
}

// -------------------------------------------------------------------- output
struct OutState { int fd = -1; char buf[1 << 20]; size_t len = 0; std::atomic<long> events{0}, segments{0}; int cpu_limit = 60; };
inline OutState &os_() { static OutState *s = new OutState; return *s; }    // one per program, not per unit
#define out_fd os_().fd
#define obuf os_().buf
#define olen os_().len

inline void oflush() { size_t o = 0; while (o < olen) { ssize_t k = ::write(out_fd, obuf + o, olen - o); if (k <= 0) _exit(90); o += k; } olen = 0; }
// with -DVT_THREADS every task has its own output, put in order at the end
inline std::string *&task_out() { static thread_local std::string *o = nullptr; return o; }
inline void oput(const char *s, size_t n) {
    if (task_out()) { task_out()->append(s, n); return; }
    if (olen + n > sizeof obuf) oflush();
    if (n > sizeof obuf) { size_t o = 0; while (o < n) { ssize_t k = ::write(out_fd, s + o, n - o); if (k <= 0) _exit(90); o += k; } return; }
    memcpy(obuf + olen, s, n); olen += n;
}
inline void bad_event(const char *what) {
    // async-signal context: append one event that no action of the specification accepts
    oflush();
    if (task_out() && ::write(out_fd, task_out()->data(), task_out()->size()) < 0) _exit(90);
    char b[96]; int n = snprintf(b, sizeof b, "{\"op\":\"%s\"}\n", what);
    if (::write(out_fd, b, n) != n) _exit(90);
    _exit(0);
}
inline void on_signal(int s) {
    bad_event(s == SIGPROF ? "Hang" : s == SIGSEGV ? "CrashSEGV" : s == SIGFPE ? "CrashFPE" : s == SIGABRT ? "CrashABRT" : s == SIGILL ? "CrashILL" : "CrashBUS");
}
inline void on_terminate() { bad_event("UncaughtException"); }
inline void arm() { itimerval t{}; t.it_value.tv_sec = os_().cpu_limit; setitimer(ITIMER_PROF, &t, nullptr); }
inline void open_trace(const char *path) {
    out_fd = ::open(path, O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (out_fd < 0) { perror(path); exit(3); }
    static char alt[1 << 16];
    stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
    struct sigaction sa{}; sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGILL, SIGPROF}) sigaction(s, &sa, nullptr);
    std::set_terminate(on_terminate);
    arm();
}
// independent parts of a recording: one after the other, or all at once on several threads
#ifdef VT_THREADS
inline std::vector<std::function<void()>> &tasks() { static std::vector<std::function<void()>> t; return t; }
inline void task(std::function<void()> f) { tasks().push_back(f); tasks().push_back(f); }      // twins use the same types
inline void run_tasks() {
    std::vector<std::string> outs(tasks().size()); std::atomic<size_t> next{0}, ready{0}; std::vector<std::thread> ts;
    os_().cpu_limit = 2000; arm();
    // all of them side by side (up to 64): a twin that ran after the other one, maybe on its thread, would show nothing
    const size_t n = std::min<size_t>(64, outs.size());
    for (size_t t = 0; t < n; t++) ts.emplace_back([&]() {
        ready++; while (ready < n) std::this_thread::yield();
        for (size_t i; (i = next.fetch_add(1, std::memory_order_relaxed)) < outs.size();) { task_out() = &outs[i]; tasks()[i](); task_out() = nullptr; }
    });
    for (auto &t : ts) t.join();
    for (size_t i = 0; i < outs.size(); i++) if (i % 2 == 0 || outs[i] != outs[i - 1]) oput(outs[i].data(), outs[i].size());
}
#else
inline void task(const std::function<void()> &f) { f(); }
inline void run_tasks() {}
#endif
#if defined(VT_THREADS) && defined(__SANITIZE_THREAD__)
extern "C" __attribute__((used)) inline void __tsan_on_report(void *) { vt::bad_event("DataRace"); }
extern "C" __attribute__((used)) inline const char *__tsan_default_options() { return "history_size=7"; }   // a race whose older half is forgotten goes unreported
#endif
#define TASK(...) vt::task([=]() mutable { __VA_ARGS__; })
inline void close_trace() { run_tasks(); oflush(); ::close(out_fd); fprintf(stderr, "events=%ld segments=%ld\n", (long)os_().events, (long)os_().segments); }

// One event. Values are written with v(...) overloads, composites with raw JSON.
struct Ev {
    std::string s;
    explicit Ev(const char *op) { s = "{\"op\":\""; s += op; s += "\""; }
    Ev &raw(const char *k, const std::string &j) { s += ",\""; s += k; s += "\":"; s += j; return *this; }
    Ev &i(const char *k, long v) { return raw(k, std::to_string(v)); }
    Ev &b(const char *k, bool v) { return raw(k, v ? "true" : "false"); }
    Ev &str(const char *k, const std::string &v) { return raw(k, "\"" + v + "\""); }
    ~Ev() { s += "}\n"; oput(s.data(), s.size()); os_().events.fetch_add(1, std::memory_order_relaxed); }
};
inline std::string jbytes(const std::vector<uint8_t> &b) {
    std::string s = "["; char t[8];
    for (size_t i = 0; i < b.size(); i++) { snprintf(t, sizeof t, i ? ",%u" : "%u", b[i]); s += t; }
    return s + "]";
}
inline std::string jz(const Z &a) { return jbytes(bytes_of(a)); }
inline std::string ju64(uint64_t a) { return jz(from_limbs(&a, 1)); }
inline std::string jints(const std::vector<long> &v) {
    std::string s = "["; for (size_t i = 0; i < v.size(); i++) { if (i) s += ","; s += std::to_string(v[i]); } return s + "]";
}
template<class C, class Fn> std::string jlist(const C &c, Fn f) {
    std::string s = "["; bool first = true; for (const auto &x : c) { if (!first) s += ","; first = false; s += f(x); } return s + "]";
}
inline std::string jraw(const std::string &bytes) { return jbytes(std::vector<uint8_t>(bytes.begin(), bytes.end())); }
// Segment start: re-arms the time limit.
struct Begin : Ev { Begin() : Ev("Begin") { arm(); os_().segments.fetch_add(1, std::memory_order_relaxed); } };

} // namespace vt
