// Parallel regions of the exponentiation templates over the abstract group Z_M.
// MODE = scheduled PROGRAMS | free
#include "progs.hpp"
#include "expio.hpp"
#ifdef VOMP
#include "vomp.hpp"
#else
#include <omp.h>
#endif
using namespace vt;
#ifdef USE_MIXED_ADDITION
static const bool SPECIAL = true;
#else
static const bool SPECIAL = false;
#endif

// ------------------------------------------------------- accesses as they happen
#ifdef VOMP
struct Log { struct A { int t; long id; char k; }; std::vector<A> as; long fresh = 0; };
static Log &lg() { static Log l; return l; }
static bool logging() { return vomp::rt().controlled; }
static void acc(long id, bool w) { if (!logging()) return; vomp::point(); if (vomp::inside()) lg().as.push_back({vomp::self().id, id, w ? 'w' : 'r'}); }
static long fresh() { return logging() ? ++lg().fresh : 0; }
void vomp::stuck() { bad_event("WorkersStuck"); }
extern "C" void __tsan_on_report(void *) { bad_event("DataRace"); }
#else
static void acc(long, bool) {}
static long fresh() { return 0; }
#endif
// anything that lives in memory
struct Tr {
    long id;
    Tr() : id(fresh()) { acc(id, true); }
    Tr(const Tr &o) : id((acc(o.id, false), fresh())) { acc(id, true); }
    Tr &operator=(const Tr &o) { acc(o.id, false); acc(id, true); return *this; }
    ~Tr() { acc(id, true); }
    void rd() const { acc(id, false); }
};
static const uint64_t M = (1ull << 61) - 1;
static uint64_t mulm(uint64_t a, uint64_t b) { return (uint64_t)((unsigned __int128)a * b % M); }
static uint64_t modm(const Z &z) { return mpz_fdiv_ui(z.v, M); }
struct HG : Tr {
    static std::vector<size_t> wnaf_window_table, fixed_base_exp_window_table;
    uint64_t v; bool sp;
    HG() : v(0), sp(true) {}
    explicit HG(uint64_t z, bool s = false) : v(z % M), sp(s || v == 0) {}
    static HG zero() { return HG(); }
    static HG one() { return HG(1, true); }
    bool is_zero() const { rd(); return v == 0; }
    bool is_special() const { rd(); return sp; }
    void to_special() { acc(id, true); sp = true; }
    HG operator+(const HG &o) const { rd(); o.rd(); return HG(v + o.v); }
    HG operator-(const HG &o) const { rd(); o.rd(); return HG(v + M - o.v); }
    HG operator-() const { rd(); return HG(M - v, sp); }
    HG dbl() const { rd(); return HG(v + v); }
    HG add(const HG &o) const { return *this + o; }
    HG mixed_add(const HG &o) const { rd(); o.rd(); if (!o.sp) bad_event("MixedAdditionOfUnnormalized"); return HG(v + o.v); }
    bool operator==(const HG &o) const { rd(); o.rd(); return v == o.v; }
    bool operator!=(const HG &o) const { return !(*this == o); }
    static void batch_to_special_all_non_zeros(std::vector<HG> &vec) {
        for (HG &e : vec) { acc(e.id, true); if (e.v == 0) bad_event("ZeroInNonzeroBatch"); e.sp = true; }
    }
};
std::vector<size_t> HG::wnaf_window_table, HG::fixed_base_exp_window_table;
template<mp_size_t n> struct HS : Tr {
    static const mp_size_t num_limbs = n;
    bigint<n> v;
    HS() {}
    explicit HS(const Z &z) : v(bof<n>(z % pow2(64 * n))) {}
    bigint<n> as_bigint() const { rd(); return v; }
    static HS zero() { return HS(Z(0)); }
    static HS one() { return HS(Z(1)); }
    bool operator==(const HS &o) const { rd(); o.rd(); return v == o.v; }
    bool operator!=(const HS &o) const { return !(*this == o); }
    bool is_zero() const { rd(); return v.is_zero(); }
    HS operator*(const HS &o) const { rd(); o.rd(); return HS(zof(v) * zof(o.v)); }
};
template<mp_size_t m> HG operator*(const bigint<m> &k, const HG &p) { p.rd(); return HG(mulm(modm(zof(k)), p.v)); }
template<mp_size_t m> HG operator*(const HS<m> &k, const HG &p) { k.rd(); p.rd(); return HG(mulm(modm(zof(k.v)), p.v)); }
static std::string jg(const HG &p) { return jz(Z((unsigned long)p.v)); }
static void begin() { Begin b; b.raw("m", jz(Z((unsigned long)M))); }
typedef HS<2> S;

struct Input { std::vector<HG> ps; std::vector<S> ks; };
static Input input(Rng &g, size_t len) {
    Input in; int mode = (int)g.below(4);
    for (size_t i = 0; i < len; i++) {
        in.ps.push_back(HG(g.chance(1, 8) ? 0 : g.next(), SPECIAL || g.chance(1, 2)));
        in.ks.push_back(S(mode == 0 ? Z((int)g.below(5)) : mode == 1 && i ? zof(in.ks[0].v) : scalar_pattern(g, 2)));
    }
    return in;
}
static const char *const METHODS[] = {"naive", "plain", "BosCoster", "BDLO12", "mixed naive", "mixed plain", "mixed BosCoster", "mixed BDLO12"};
static HG method(int k, const Input &in, size_t c) {
    auto a = in.ps.begin(), b = in.ps.end(); auto x = in.ks.begin(), y = in.ks.end();
    switch (k) {
    case 0: return multi_exp<HG, S, multi_exp_method_naive>(a, b, x, y, c);
    case 1: return multi_exp<HG, S, multi_exp_method_naive_plain>(a, b, x, y, c);
    case 2: return multi_exp<HG, S, multi_exp_method_bos_coster>(a, b, x, y, c);
    case 3: return multi_exp<HG, S, multi_exp_method_BDLO12>(a, b, x, y, c);
    case 4: return multi_exp_with_mixed_addition<HG, S, multi_exp_method_naive>(a, b, x, y, c);
    case 5: return multi_exp_with_mixed_addition<HG, S, multi_exp_method_naive_plain>(a, b, x, y, c);
    case 6: return multi_exp_with_mixed_addition<HG, S, multi_exp_method_bos_coster>(a, b, x, y, c);
    default: return multi_exp_with_mixed_addition<HG, S, multi_exp_method_BDLO12>(a, b, x, y, c);
    }
}
static void msm_out(const Input &in, const Results &r) { Ev("msm").raw("ks", jks(in.ks)).raw("ps", jps(in.ps, jg)).raw("vs", r.json()); }

#ifdef VOMP
// the log of the regions so far, without what only one worker ever touched
static void emit_log() {
    std::vector<Log::A> as; as.swap(lg().as);
    size_t i = 0;
    while (i < as.size()) {
        size_t e = i; while (e < as.size() && as[e].k != 'j') e++;
        std::map<long, int> who;
        for (size_t k = i; k < e; k++) if (as[k].k == 'r' || as[k].k == 'w') { auto it = who.insert({as[k].id, as[k].t}).first; if (it->second != as[k].t) it->second = -1; }
        std::map<long, long> name;
        for (size_t k = i; k < e;) {
            if (as[k].k == 'f') { Ev("fork").i("n", as[k].id); k++; continue; }
            if (as[k].k == 'l' || as[k].k == 'u') { Ev(as[k].k == 'l' ? "lock" : "unlock").i("t", as[k].t).i("c", as[k].id); k++; continue; }
            if (as[k].k == 'a' || as[k].k == 'd') { Ev(as[k].k == 'a' ? "arrive" : "depart").i("t", as[k].t); k++; continue; }
            int t = as[k].t; std::vector<long> r, w;
            for (; k < e && as[k].t == t && (as[k].k == 'r' || as[k].k == 'w'); k++) if (who[as[k].id] < 0) {
                long id = name.insert({as[k].id, (long)name.size() + 1}).first->second;
                auto &v = as[k].k == 'r' ? r : w; if (std::find(v.begin(), v.end(), id) == v.end()) v.push_back(id);
            }
            if (!r.empty() || !w.empty()) Ev("acc").i("t", t).raw("r", jints(r)).raw("w", jints(w));
        }
        if (e < as.size()) Ev("join");
        i = e + 1;
    }
}
static void observe(const char *what, int t, const void *arg) {
    if (!logging() || (!vomp::inside() && what[0] != 'f' && what[0] != 'j')) return;
    static std::map<const void *, long> locks;
    char k = what[0] == 'f' ? 'f' : what[0] == 'j' ? 'j' : what[0] == 'l' ? 'l' : what[0] == 'u' ? 'u' : what[0] == 'a' ? 'a' : 'd';
    long id = k == 'f' ? (long)arg : k == 'l' || k == 'u' ? locks.insert({arg, (long)locks.size() + 1}).first->second : 0;
    lg().as.push_back({t, id, k});
}
static void scheduled(const char *file) {
    Rng g(seed() * 6364136223846793005ull + 11); auto progs = read_programs(file);
    HG::wnaf_window_table = {2, 9, 20, 40};
    vomp::rt().observe = observe;
    long nth = 0;
    for (auto &p : progs) {
        nth++; begin();
        size_t len = p[0][1], chunks = p[0][2]; int team = (int)p[0][3];
        for (int rep = 0; rep < 3; rep++) {
            int stretch = rep == 0 ? 1 + (int)g.below(4) : rep == 1 ? 5 + (int)g.below(12) : 20 + (int)g.below(60);
            std::vector<int> sched;
            for (int again = 0; again < 40; again++) for (size_t i = 1; i < p.size(); i++) for (int k = 0; k < stretch; k++) sched.push_back((int)p[i][1]);
            vomp::rt().threads = team; vomp::rt().schedule = &sched;
            auto run = [&](const std::function<void()> &f) { lg().as.clear(); lg().fresh = 1000000; vomp::rt().pos = 0; f(); };
            Input in = input(g, len);
            // numbers the inputs: they are shared by all workers
            long id = 0; for (auto &x : in.ps) x.id = ++id; for (auto &x : in.ks) x.id = ++id;
            int k = (int)((nth * 3 + rep) % 8), k2 = (int)g.below(8);
            for (int m : {k, k2}) {
                Results r;
                vomp::rt().controlled = true;
                run([&] { HG v = method(m, in, chunks); vomp::rt().controlled = false; r.add(METHODS[m], jg(v)); });
                emit_log(); msm_out(in, r);
            }
            size_t w = 1 + g.below(4), size = 128; HG b(g.next(), true);
            const window_table<HG> tab = get_window_table<HG>(size, w, b);
            id = 10000; for (auto &row : tab) for (auto &x : row) const_cast<HG &>(x).id = ++id;
            S co(scalar_pattern(g, 1)); co.id = 9999; bool coeff = g.chance(1, 2);
            std::vector<S> ks; for (auto &x : in.ks) ks.push_back(S(zof(x.v) % pow2(64)));
            for (auto &x : ks) x.id = ++id;
            vomp::rt().controlled = true; std::vector<HG> res;
            run([&] { res = coeff ? batch_exp_with_coeff<HG, S>(size, w, tab, co, ks) : batch_exp<HG, S>(size, w, tab, ks); });
            vomp::rt().controlled = false; emit_log();
            Results r; r.add("batch", jps(res, jg));
            Ev e("fixed"); e.raw("p", jg(b)).raw("ks", jks(ks)).i("size", (long)size).i("w", (long)w).raw("vs", r.json());
            if (coeff) e.raw("coeff", jz(zof(co.v))).raw("n", jz(pow2(128)));
        }
    }
}
#endif
static void free_running() {
    Rng g(seed() * 2862933555777941757ull + 7);
    HG::wnaf_window_table = {2, 9, 20, 40};
    for (int i = 0; i < N(60, 800); i++) {
        begin();
        omp_set_num_threads(i % 5 == 0 ? 1 : (int)(1 + g.below(9)));
        Input in = input(g, g.below(30));
        for (size_t c : {1 + g.below(3), 1 + g.below(in.ps.size() + 2), in.ps.size() + (in.ps.empty() ? 1 : 0)}) {
            Results r; for (int m = 0; m < 8; m++) r.add(std::string(METHODS[m]) + "/" + std::to_string(c), jg(method(m, in, c)));
            msm_out(in, r);
        }
        size_t w = 1 + g.below(6); std::vector<S> ks; for (auto &x : in.ks) ks.push_back(S(zof(x.v) % pow2(64)));
        S co(scalar_pattern(g, 1));
        fixed_event<HG, S>(HG(g.next()), 128, w, ks, nullptr, Z(0), jg);
        fixed_event<HG, S>(HG(g.next()), 128, w, ks, &co, pow2(128), jg);
    }
}
int main(int argc, char **argv) {
    if (argc < 3) return 3;
    open_trace(argv[1]); inhibit_profiling_info = true;
    std::string mode = argv[2];
#ifdef VOMP
    if (mode == "scheduled") scheduled(argv[3]); else
#endif
    free_running();
    close_trace(); return 0;
}
