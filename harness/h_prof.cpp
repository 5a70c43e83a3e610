// P26: profiling histories under a controlled clock.
//   h_prof TRACE PROGRAMS...
#include "curveio.hpp"
#include "expio.hpp"
#include "progs.hpp"
#include <libff/algebra/scalar_multiplication/multiexp.hpp>
#include <libff/common/profiling.hpp>
#include <chrono>
#include <ctime>
#include <sys/mman.h>
#include <unistd.h>
using namespace vt;
typedef std::string S;

// The clock: one unit is 100 microseconds, processor time runs twice as fast.
static long long g_now = 0;                  // in units
static const long long UNIT = 100000;        // nanoseconds
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(duration(g_now * UNIT)); }
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(g_now * UNIT)); }
} } }
extern "C" int clock_gettime(clockid_t id, struct timespec *ts) noexcept {
    long long t = g_now * UNIT * (id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID ? 2 : 1);
    ts->tv_sec = t / 1000000000; ts->tv_nsec = t % 1000000000; return 0;
}

// Standard output, captured.
static int g_cap = -1;
static off_t g_read = 0;
static void capture() { g_cap = memfd_create("out", 0); if (g_cap < 0) exit(3); fflush(stdout); dup2(g_cap, 1); }
static S taken() {
    fflush(stdout); S s; char b[65536]; ssize_t k;
    while ((k = pread(1, b, sizeof b, g_read)) > 0) { s.append(b, k); g_read += k; }
    return s;
}
static S esc(const S &s) { S r; for (char c : s) { if (c == '"' || c == '\\') r += '\\'; r += c; } return r; }
static S trim(const S &s) { size_t e = s.find_last_not_of(" \t"); return e == S::npos ? "" : s.substr(0, e + 1); }
static bool secs(const S &s, size_t p, long &units) {    // D.DDDD
    long a, b; char c; int n = 0; if (sscanf(s.c_str() + p, "%ld.%4ld%n%c", &a, &b, &n, &c) < 2) return false;
    units = a * 10000 + b; return true;
}
struct Out { long ind; S kind, name; long t, from; bool cpu; };
static bool parse(const S &line, Out &o) {
    size_t i = line.find_first_not_of(' '); if (i == S::npos) return false;
    size_t tab = line.find('\t'); if (tab == S::npos) return false;
    size_t p;
    if (line.compare(i, 8, "(enter) ") == 0) { o.kind = "enter"; p = i + 8; }
    else if (line.compare(i, 8, "(leave) ") == 0) { o.kind = "leave"; p = i + 8; }
    else if (line.compare(0, 9, "at time: ") == 0) { o.kind = "time"; p = 0; i = 0; }
    else return false;
    o.ind = (long)i; o.name = trim(line.substr(p, tab - p)); o.t = 0; o.from = 0; o.cpu = true;
    size_t b = line.find('[', tab); if (b == S::npos) { o.t = -1; return true; }
    size_t q = line.find_first_not_of(' ', b + 1);
    if (q != S::npos && line[q] != ']') { if (!secs(line, q, o.t)) o.t = -1; if (line.compare(line.find(' ', q) + 1, 5, "x2.00") != 0) o.cpu = false; }
    size_t f = line.find('(', b);
    if (f != S::npos) { if (!secs(line, f + 1, o.from)) o.from = -1; if (line.compare(line.find(' ', f) + 1, 5, "x2.00") != 0) o.cpu = false; }
    if (!o.cpu) o.t = -2;
    return true;
}
static std::vector<Out> lines(const S &text, size_t *other = nullptr) {
    std::vector<Out> r;
    for (size_t a = 0, b; a < text.size(); a = b + 1) { b = text.find('\n', a); if (b == S::npos) b = text.size(); Out o; if (parse(text.substr(a, b - a), o)) r.push_back(o); else if (other) ++*other; }
    return r;
}
static S jout(const Out &o) { return "[" + std::to_string(o.ind) + ",\"" + o.kind + "\",\"" + esc(o.name) + "\"," + std::to_string(o.t) + "," + std::to_string(o.from) + "]"; }
// anything that is not an expected line shows up as a line of another kind
static S jouts(const S &text) { size_t other = 0; auto v = lines(text, &other); while (other-- > 0) v.push_back(Out{0, "other", "", 0, 0, true}); return jlist(v, jout); }
template<class M> S table(const M &m, bool time) {
    S s = "["; bool first = true;
    for (auto &kv : m) { if (!first) s += ","; first = false; long long v = (long long)kv.second; s += "[\"" + esc(kv.first) + "\"," + std::to_string(time ? (v % UNIT ? -1 : v / UNIT) : v) + "]"; }
    return s + "]";
}
static void tables(Ev &e) {
    e.raw("cnt", table(libff::invocation_counts, false)).raw("last", table(libff::last_times, true)).raw("cum", table(libff::cumulative_times, true));
}
// "   NAME: T ms = F * T ms (N invocations, T ms = F * T ms per invocation)": each
// T as [whole, five decimals]; a line of another form is reported as such
static S report(const S &text) {
    S s = "["; bool first = true;
    for (size_t a = 0, b; a < text.size(); a = b + 1) {
        b = text.find('\n', a); if (b == S::npos) b = text.size(); S ln = text.substr(a, b - a);
        if (ln == "Dumping times:" || ln.empty()) continue;
        size_t c = ln.rfind(": "); long m[4], d[4], f[2], n; int k = 0;
        bool ok = c != S::npos && ln.compare(0, 3, "   ") == 0 &&
            sscanf(ln.c_str() + c + 1, " %ld.%5ldms = %ld * %ld.%5ldms (%ld invocations, %ld.%5ldms = %ld * %ld.%5ldms per invocation)%n", m, d, f, m + 1, d + 1, &n, m + 2, d + 2, f + 1, m + 3, d + 3, &k) == 11 && k > 0;
        if (!first) s += ","; first = false;
        auto t = [&](int i) { return "[" + std::to_string(m[i]) + "," + std::to_string(d[i]) + "]"; };
        if (ok) s += "[\"" + esc(trim(ln.substr(3, c - 3))) + "\",[" + t(0) + "," + std::to_string(f[0]) + "," + t(1) + "," + std::to_string(n) + "," + t(2) + "," + std::to_string(f[1]) + "," + t(3) + "]]";
        else s += "[\"not an entry\",[]]";
    }
    return s + "]";
}
static void play(const std::vector<Step> &prog) {
    { Begin b; }
    for (const Step &s : prog) {
        const S &o = s.op(); g_now += s[1];
        if (o == "enter" || o == "leave") {
            if (o == "enter") libff::enter_block(s.w[2], s[3]); else libff::leave_block(s.w[2], s[3]);
            Ev e(o.c_str()); e.i("k", s[1]).str("n", s.w[2]).b("i", s[3]).raw("out", jouts(taken())); tables(e);
        } else if (o == "clear") { libff::clear_profiling_counters(); Ev e("clear"); e.i("k", s[1]).raw("out", jouts(taken())); tables(e); }
        else if (o == "count") { libff::inhibit_profiling_counters = s[2]; Ev e("count"); e.i("k", s[1]).b("b", s[2]).raw("out", jouts(taken())); tables(e); }
        else if (o == "print") { libff::inhibit_profiling_info = s[2]; Ev e("print"); e.i("k", s[1]).b("b", s[2]).raw("out", jouts(taken())); tables(e); }
        else if (o == "time") { libff::print_time("at time: here"); Ev e("time"); e.i("k", s[1]).str("n", "at time: here").raw("out", jouts(taken())); tables(e); }
        else if (o == "start") { libff::start_profiling(); taken(); Ev e("start"); e.i("k", s[1]); tables(e); }
        else if (o == "report") { long long f = 1 + (long long)(s[1] % 3); libff::print_cumulative_times(f); S t = taken(); Ev e("report"); e.i("k", s[1]).i("f", f).raw("rep", report(t)); tables(e); }
        else if (o == "indent") { libff::print_indent(); S t = taken(); bool blank = t.find_first_not_of(' ') == S::npos; Ev e("indent"); e.i("k", s[1]).i("width", blank ? (long)t.size() : -1); tables(e); }
        else { fprintf(stderr, "unknown step %s\n", o.c_str()); exit(3); }
    }
}
// blocks of the library itself
static void lib(const char *what, std::function<void()> f, int level) {
    static const char *outer[] = {"outer one", "outer two"};
    Begin().str("what", what);
    for (int i = 0; i < level; i++) { libff::enter_block(outer[i], true); Ev("libenter").str("n", outer[i]).raw("out", jouts(taken())); }
    f();
    for (const Out &o : lines(taken())) {
        if (o.kind == "enter") Ev("libenter").str("n", o.name).raw("out", "[" + jout(o) + "]");
        else Ev("libleave").str("n", o.name).raw("out", "[" + jout(o) + "]");
    }
    { Ev e("libdone"); e.i("open", level); tables(e); }
    for (int i = level; i-- > 0;) { libff::leave_block(outer[i], true); Ev("libleave").str("n", outer[i]).raw("out", jouts(taken())); }
    { Ev e("libdone"); e.i("open", 0); tables(e); }
    libff::clear_profiling_counters();
}
template<class C, class Fr> void pairings(const char *name, Rng &g) {
    typedef typename C::G1_type G1; typedef typename C::G2_type G2; typedef typename C::Fqk_type T;
    for (int t = 0; t < 6; t++) {
        G1 P = t % 3 == 1 ? G1::zero() : subgroup_point<G1>(g), P2 = t == 3 ? G1::zero() : subgroup_point<G1>(g);
        G2 Q = t % 3 == 2 ? G2::zero() : subgroup_point<G2>(g), Q2 = t == 4 ? G2::zero() : subgroup_point<G2>(g);
        lib((S(name) + " reduced pairing").c_str(), [&] { C::reduced_pairing(P, Q); }, t % 3);
        lib((S(name) + " products").c_str(), [&] {
            auto a = C::precompute_G1(P); auto b = C::precompute_G2(Q); auto c = C::precompute_G1(P2); auto d = C::precompute_G2(Q2);
            T f = C::double_miller_loop(a, b, c, d) * C::miller_loop(c, b) * C::pairing(P, Q); C::final_exponentiation(f);
            C::final_exponentiation(T::one());
        }, (t + 1) % 3);
    }
}
template<class C> void affine(const char *name, Rng &g) {
    typedef typename C::G1_type G1; typedef typename C::G2_type G2;
    for (int t = 0; t < 4; t++) {
        G1 P = t == 1 ? G1::zero() : subgroup_point<G1>(g); G2 Q = t == 2 ? G2::zero() : subgroup_point<G2>(g);
        lib((S(name) + " affine").c_str(), [&] { C::affine_reduced_pairing(P, Q); auto a = C::affine_ate_precompute_G1(P); auto b = C::affine_ate_precompute_G2(Q);
            C::affine_ate_e_over_e_miller_loop(a, b, a, b); C::affine_ate_e_times_e_over_e_miller_loop(a, b, a, b, a, b); }, t % 3);
    }
}
template<class G> void exps(const char *name, Rng &g) {
    typedef typename G::scalar_field Fr;
    std::vector<G> b; std::vector<Fr> s;
    for (int i = 0; i < 9; i++) { b.push_back(i == 3 ? G::zero() : subgroup_point<G>(g)); b.back().to_special(); s.push_back(i == 4 ? Fr::zero() : i == 5 ? Fr::one() : any<Fr>(g)); }
    lib((S(name) + " multi-exponentiation").c_str(), [&] {
        libff::multi_exp<G, Fr, libff::multi_exp_method_naive>(b.begin(), b.end(), s.begin(), s.end(), 1);
        libff::multi_exp<G, Fr, libff::multi_exp_method_bos_coster>(b.begin(), b.end(), s.begin(), s.end(), 2);
        libff::multi_exp<G, Fr, libff::multi_exp_method_BDLO12>(b.begin(), b.end(), s.begin(), s.end(), 3);
        libff::multi_exp_with_mixed_addition<G, Fr, libff::multi_exp_method_BDLO12>(b.begin(), b.end(), s.begin(), s.end(), 1);
        libff::batch_to_special(b);
    }, 1);
    lib((S(name) + " fixed base").c_str(), [&] {
        size_t w = libff::get_exp_window_size<G>(9); auto t = libff::get_window_table(Fr::num_bits, w, G::one());
        libff::batch_exp(Fr::num_bits, w, t, s); libff::batch_exp_with_coeff(Fr::num_bits, w, t, Fr(3), s);
    }, 2);
}
int main(int argc, char **argv) {
    open_trace(argv[1]);
    capture();
    init_all_curves();
    libff::inhibit_profiling_info = libff::inhibit_profiling_counters = false;
    libff::clear_profiling_counters();
    for (int a = 2; a < argc; a++) for (auto &prog : read_programs(argv[a])) {
        // every program starts from a clean slate
        g_now = 0; libff::inhibit_profiling_info = libff::inhibit_profiling_counters = false;
        libff::start_profiling(); libff::clear_profiling_counters(); taken();
        std::vector<Step> open, q(prog);
        std::vector<std::pair<Step, std::pair<int, int>>> st; int c = 0, p = 0;
        for (auto &s : prog) { if (s.op() == "count") c = s[2]; else if (s.op() == "print") p = s[2]; else if (s.op() == "enter") st.push_back({s, {c, p}}); else if (s.op() == "leave") st.pop_back(); }
        // and leaves what it entered
        while (!st.empty()) {
            auto x = st.back(); st.pop_back(); Step y;
            if (x.second.first != c) { c = x.second.first; y.w = {"count", "1", std::to_string(c)}; q.push_back(y); }
            if (x.second.second != p) { p = x.second.second; y.w = {"print", "1", std::to_string(p)}; q.push_back(y); }
            y = x.first; y.w[0] = "leave"; q.push_back(y);
        }
        play(q);
    }
    g_now = 0; libff::inhibit_profiling_info = libff::inhibit_profiling_counters = false; libff::start_profiling(); libff::clear_profiling_counters(); taken();
    Rng g(seed());
    pairings<alt_bn128_pp, alt_bn128_Fr>("alt_bn128", g); pairings<bls12_381_pp, bls12_381_Fr>("bls12_381", g); pairings<edwards_pp, edwards_Fr>("edwards", g);
    pairings<mnt4_pp, mnt4_Fr>("mnt4", g); pairings<mnt6_pp, mnt6_Fr>("mnt6", g); affine<mnt4_pp>("mnt4", g); affine<mnt6_pp>("mnt6", g);
    exps<alt_bn128_G1>("alt_bn128_G1", g); exps<bls12_381_G2>("bls12_381_G2", g); exps<edwards_G1>("edwards_G1", g); exps<mnt6_G1>("mnt6_G1", g);
    close_trace();
}
