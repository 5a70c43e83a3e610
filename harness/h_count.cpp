// P31: operation counters (spec/T_Count.tla). Built with PROFILE_OP_COUNTS.
#include "curveio.hpp"
#include "capture.hpp"
#include "progs.hpp"
#include <libff/common/default_types/ec_pp.hpp>
#include <sstream>
using namespace vt;
typedef std::string S;
static S jc(const std::vector<std::pair<S, long long>> &v) { S r = "{"; for (auto &x : v) r += (r.size() > 1 ? ",\"" : "\"") + x.first + "\":" + std::to_string(x.second); return r + "}"; }
template<class F> S fcnt() { return jc({{"add", F::add_cnt}, {"sub", F::sub_cnt}, {"mul", F::mul_cnt}, {"sqr", F::sqr_cnt}, {"inv", F::inv_cnt}}); }
template<class G> S gcnt() { return jc({{"add", G::add_cnt}, {"dbl", G::dbl_cnt}}); }

template<class F> struct Squares { static F get(const F &x, int) { return x.squared(); } };
template<mp_size_t n, const bigint<n> &m> struct Squares<Fp2_model<n, m>> { static Fp2_model<n, m> get(const Fp2_model<n, m> &x, int i) { return i ? x.squared_karatsuba() : x.squared_complex(); } };
template<mp_size_t n, const bigint<n> &m> struct Squares<Fp12_2over3over2_model<n, m>> { typedef Fp12_2over3over2_model<n, m> F; static F get(const F &x, int i) { return i ? x.squared_karatsuba() : x.squared_complex(); } };
template<class F> struct ByBase { static bool go(F &, Rng &) { return false; } };
template<mp_size_t n, const bigint<n> &m> struct ByBase<Fp2_model<n, m>> { static bool go(Fp2_model<n, m> &x, Rng &g) { x = any<Fp_model<n, m>>(g) * x; return true; } };
template<mp_size_t n, const bigint<n> &m> struct ByBase<Fp3_model<n, m>> { static bool go(Fp3_model<n, m> &x, Rng &g) { x = any<Fp_model<n, m>>(g) * x; return true; } };
template<mp_size_t n, const bigint<n> &m> struct ByBase<Fp4_model<n, m>> { static bool go(Fp4_model<n, m> &x, Rng &g) { if (g.chance(1, 2)) x = any<Fp_model<n, m>>(g) * x; else x = any<Fp2_model<n, m>>(g) * x; return true; } };
template<mp_size_t n, const bigint<n> &m> struct ByBase<Fp6_2over3_model<n, m>> { static bool go(Fp6_2over3_model<n, m> &x, Rng &g) { x = any<Fp_model<n, m>>(g) * x; return true; } };
template<mp_size_t n, const bigint<n> &m> struct ByBase<Fp6_3over2_model<n, m>> { static bool go(Fp6_3over2_model<n, m> &x, Rng &g) { if (g.chance(1, 2)) x = any<Fp_model<n, m>>(g) * x; else x = any<Fp2_model<n, m>>(g) * x; return true; } };
template<mp_size_t n, const bigint<n> &m> struct ByBase<Fp12_2over3over2_model<n, m>> { static bool go(Fp12_2over3over2_model<n, m> &x, Rng &g) { if (g.chance(1, 2)) x = any<Fp_model<n, m>>(g) * x; else x = any<Fp2_model<n, m>>(g) * x; return true; } };

// the products with sparse elements count as products
template<class F> struct Sparse { static bool go(F &, Rng &) { return false; } };
template<mp_size_t n, const bigint<n> &m> struct Sparse<Fp4_model<n, m>> { typedef Fp4_model<n, m> F; static bool go(F &x, Rng &g) { F y = any<F>(g); y.c0.c1 = Fp_model<n, m>::zero(); x = x.mul_by_023(y); return true; } };
template<mp_size_t n, const bigint<n> &m> struct Sparse<Fp6_2over3_model<n, m>> { typedef Fp6_2over3_model<n, m> F; static bool go(F &x, Rng &g) { F y = any<F>(g); y.c0.c0 = y.c0.c1 = Fp_model<n, m>::zero(); x = x.mul_by_2345(y); return true; } };
template<class F> void field(const char *name, int salt) {
    Rng g(seed() * 5915587277ull + salt);
    std::vector<F> r; for (int i = 0; i < 4; i++) r.push_back(any<F>(g));
    Begin().str("type", name).raw("cnt", fcnt<F>());
    for (int i = 0; i < N(40, 400); i++) {
        F a = r[g.below(4)], b = g.chance(1, 4) ? a : r[g.below(4)], c = any_nonzero<F>(g), d = a;
        const char *k; int op = (int)g.below(16);
        S before = fcnt<F>();
        switch (op) {
        case 0: k = "add"; d = a + b; break; case 1: k = "add"; d += b; break; case 2: k = "add"; d += d; break;
        case 3: k = "sub"; d = a - b; break; case 4: k = "sub"; d -= b; break;
        case 5: k = "mul"; d = a * b; break; case 6: k = "mul"; d *= b; break; case 7: k = "mul"; d *= d; break;
        case 8: k = "sqr"; d = a.squared(); break; case 9: k = "sqr"; d.square(); break; case 10: k = "sqr"; d = Squares<F>::get(a, (int)g.below(2)); break;
        case 11: k = "inv"; d = c.inverse(); break; case 12: k = "inv"; d = c; d.invert(); break;
        case 13: if (Sparse<F>::go(d, g)) { k = "mul"; break; }    // else a negation or a product by the base
        default: if (g.chance(2, 3) && ByBase<F>::go(d, g)) k = "mul"; else { k = "neg"; d = -a; }
        }
        Ev("do").str("k", k).raw("cnt", fcnt<F>());
        r[g.below(4)] = d;
    }
}
template<class G> void group(int salt) {
    Rng g(seed() * 32452843 + salt);
    Begin().str("type", C<G>::name()).raw("cnt", gcnt<G>());
    auto log = [](const char *k) { Ev("do").str("k", k).raw("cnt", gcnt<G>()); };
    auto prep = [&](const char *) { Begin().str("type", C<G>::name()).raw("cnt", gcnt<G>()); };
    for (int i = 0; i < 3; i++) { G p = subgroup_point<G>(g), q = p, t; if (i) shake(g, p); prep(""); t = i < 2 ? p + q : p.add(q); log("equal"); }
    // every form with the identity on either side, equal points and opposite ones
    for (int form = 0; form < 5; form++) for (int rel = 0; rel < 5; rel++) {
        G p = rel == 0 || rel == 2 ? some_zero<G>(g) : subgroup_point<G>(g), q = rel == 1 || rel == 2 ? some_zero<G>(g) : rel == 3 ? p : rel == 4 ? -p : subgroup_point<G>(g), t = p;
        G s = q; s.to_special();
        prep("");
        switch (form) {
        case 0: t = p + q; break;
        case 1: t = p.add(q); break;
        case 2: t = p.mixed_add(s); break;
        case 3: t = p - q; break;
        default: if (!p.is_zero()) continue; t = p.dbl();
        }
        log("special");
    }
    for (int i = 0; i < N(16, 160); i++) {
        G p = g.chance(1, 6) ? some_zero<G>(g) : subgroup_point<G>(g), q = g.chance(1, 6) ? p : subgroup_point<G>(g), t = p;
        if (g.chance(1, 5)) shake(g, p);
        G s = q; s.to_special();
        bool odd = p.is_zero() || q.is_zero() || p == q || p == -q;
        prep("");
        switch (g.below(5)) {
        case 0: t = p + q; log(p == q && !p.is_zero() ? "equal" : odd ? "special" : "add"); break;
        case 1: t = p.add(q); log(odd ? "special" : "add"); break;
        case 2: if (s.is_zero()) break; t = p.mixed_add(s); log(odd ? "special" : "add"); break;
        case 3: t = p - q; log(odd ? "special" : "add"); break;
        default: t = p.dbl(); log(p.is_zero() ? "special" : "dbl");
        }
    }
}

// ----------------------------------------------------------------- blocks
typedef Fr<default_ec_pp> R; typedef Fq<default_ec_pp> Q; typedef G1<default_ec_pp> A; typedef G2<default_ec_pp> B2;
static S all() {
    return jc({{"Fradd", R::add_cnt}, {"Frsub", R::sub_cnt}, {"Frmul", R::mul_cnt}, {"Frinv", R::inv_cnt}, {"Fqadd", Q::add_cnt}, {"Fqsub", Q::sub_cnt}, {"Fqmul", Q::mul_cnt}, {"Fqinv", Q::inv_cnt},
               {"G1add", A::add_cnt}, {"G1dbl", A::dbl_cnt}, {"G2add", B2::add_cnt}, {"G2dbl", B2::dbl_cnt}});
}
template<class F> void fwork(int k, long m, F &x, F &y) { for (; m > 0; m--) { if (k == 0) x += y; else if (k == 1) x -= y; else if (k == 2) x *= y; else { if (x.is_zero()) x = F(3); x.invert(); } } }
static void work(int k, long m) {
    static R r(5), r2(7); static Q q(5), q2(7); static A a = A::one().dbl(), a2 = A::one(); static B2 b = B2::one().dbl(), b2 = B2::one();
    if (k < 4) fwork(k, m, r, r2); else if (k < 8) fwork(k - 4, m, q, q2);
    else for (; m > 0; m--) { if (k == 8) a = a + a2; else if (k == 9) a = a.dbl(); else if (k == 10) b = b + b2; else b = b.dbl(); }
}
// (opcounts) = (Fradd=1, ...)
static S counts(const S &t) {
    std::vector<S> r; size_t p = 0;
    while ((p = t.find("(opcounts) = (", p)) != S::npos) {
        p += 14; size_t e = t.find(')', p); std::istringstream in(t.substr(p, e - p)); S w; std::vector<std::pair<S, long long>> v;
        while (in >> w) { size_t q = w.find('='); v.push_back({w.substr(0, q), atoll(w.c_str() + q + 1)}); }
        r.push_back(jc(v)); p = e;
    }
    return jlist(r, [](const S &x) { return x; });
}
// name : Fradd = 1 (  2), Frsub = ...
static S report(const S &t) {
    std::vector<S> r; std::istringstream in(t); S x;
    while (std::getline(in, x)) {
        size_t c = x.find(": "); if (c == S::npos) continue;
        S n = x.substr(0, c); while (!n.empty() && n.back() == ' ') n.pop_back(); while (!n.empty() && n[0] == ' ') n.erase(0, 1);
        S body = x.substr(c + 2), out = "{"; for (char &ch : body) if (strchr("=(),", ch)) ch = ' ';
        std::istringstream b(body); S k; double avg; long cnt;
        while (b >> k >> avg >> cnt) out += (out.size() > 1 ? ",\"" : "\"") + k + "\":[" + std::to_string((long long)avg) + "," + std::to_string(cnt) + "]";
        r.push_back("{\"n\":\"" + n + "\",\"c\":" + out + "}}");
    }
    return jlist(r, [](const S &y) { return y; });
}
static void play(const std::vector<Step> &prog) {
    libff::inhibit_profiling_info = libff::inhibit_profiling_counters = false;
    libff::clear_profiling_counters(); taken();
    Begin().raw("cnt", all());
    struct Open { S n; bool c, p; }; std::vector<Open> st;
    auto leave = [&]() { libff::leave_block(st.back().n); Ev("leave").str("n", st.back().n).raw("out", counts(taken())); st.pop_back(); };
    auto count = [&](bool b) { libff::inhibit_profiling_counters = b; Ev("count").b("b", b); };
    auto print = [&](bool b) { libff::inhibit_profiling_info = b; Ev("print").b("b", b); };
    for (const Step &s : prog) {
        const S &o = s.op();
        if (o == "enter") { libff::enter_block(s.w[1]); taken(); st.push_back({s.w[1], libff::inhibit_profiling_counters, libff::inhibit_profiling_info}); Ev("enter").str("n", s.w[1]); }
        else if (o == "leave") leave();
        else if (o == "work") { work((int)s[1], s[2]); Ev("work").raw("cnt", all()); }
        else if (o == "clear") { libff::clear_profiling_counters(); Ev("clear"); }
        else if (o == "count") count(s[1]);
        else if (o == "print") print(s[1]);
        else if (o == "report") { libff::print_cumulative_op_counts(s[1]); Ev("report").b("fq", s[1]).raw("rep", report(taken())); }
        else { fprintf(stderr, "unknown step %s\n", o.c_str()); exit(3); }
    }
    while (!st.empty()) {
        if (st.back().c != libff::inhibit_profiling_counters) count(st.back().c);
        if (st.back().p != libff::inhibit_profiling_info) print(st.back().p);
        leave();
    }
    libff::print_cumulative_op_counts(false); Ev("report").b("fq", false).raw("rep", report(taken()));
}
int main(int argc, char **argv) {
    open_trace(argv[1]);
    init_all_curves();
    capture();
    int s = 0;
#define FIELD(T) field<T>(#T, ++s);
    FIELD(alt_bn128_Fr) FIELD(alt_bn128_Fq) FIELD(alt_bn128_Fq2) FIELD(alt_bn128_Fq6) FIELD(alt_bn128_Fq12) FIELD(bls12_381_Fr) FIELD(bls12_381_Fq) FIELD(bls12_381_Fq2)
    FIELD(bls12_381_Fq6) FIELD(bls12_381_Fq12) FIELD(edwards_Fr) FIELD(edwards_Fq) FIELD(edwards_Fq3) FIELD(edwards_Fq6) FIELD(mnt4_Fr) FIELD(mnt4_Fq) FIELD(mnt4_Fq2) FIELD(mnt4_Fq4)
    FIELD(mnt6_Fr) FIELD(mnt6_Fq) FIELD(mnt6_Fq3) FIELD(mnt6_Fq6) FIELD(gf32) FIELD(gf64) FIELD(gf128) FIELD(gf192) FIELD(gf256)
#define GROUP(T) group<T>(++s);
    ALL_GROUPS(GROUP)
    for (int a = 2; a < argc; a++) for (auto &prog : read_programs(argv[a])) play(prog);
    close_trace();
}
