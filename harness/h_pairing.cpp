// P21, P22, P23: pairings of the shipped curves (spec/PairingMachine.tla).
#include "curveio.hpp"
#include "expio.hpp"
#include "progs.hpp"
#include <sstream>
using namespace vt;
typedef std::string S;
template<class F> S k(const F &x) { return K<F>::js(x); }

// One way of evaluating the pairings of a curve: types and functions.
#define WAY(NAME, CURVE, KIND, EMB, A, B, PRE1, PRE2, LOOP, DLOOP, REDUCED) \
struct NAME { \
    typedef CURVE##_pp pp; typedef CURVE##_G1 G1; typedef CURVE##_G2 G2; typedef CURVE##_##EMB T; typedef CURVE##_Fr Fr; typedef CURVE##_Fq Fq; \
    typedef A P1; typedef B P2; \
    static const char *curve() { return #CURVE; } static const char *kind() { return KIND; } \
    static P1 pre1(const G1 &x) { return PRE1(x); } static P2 pre2(const G2 &x) { return PRE2(x); } \
    static T loop(const P1 &a, const P2 &b) { return LOOP(a, b); } \
    static T dloop(const P1 &a, const P2 &b, const P1 &c, const P2 &d) { return DLOOP; } \
    static T quot(const P1 &a, const P2 &b, const P1 &c, const P2 &d); \
    static T prodquot(const P1 &a, const P2 &b, const P1 &c, const P2 &d, const P1 &e, const P2 &f); \
    static T reduced(const G1 &x, const G2 &y) { return REDUCED(x, y); } \
    static const bool is_affine = KIND[0] == 'f'; \
};
#define ATE(NAME, C, EMB) WAY(NAME, C, "ate", EMB, C##_ate_G1_precomp, C##_ate_G2_precomp, C##_ate_precompute_G1, C##_ate_precompute_G2, C##_ate_miller_loop, C##_ate_double_miller_loop(a, b, c, d), C##_ate_reduced_pairing)
#define PP(NAME, C, EMB) WAY(NAME, C, "pp", EMB, C##_G1_precomp, C##_G2_precomp, C##_pp::precompute_G1, C##_pp::precompute_G2, C##_pp::miller_loop, C##_pp::double_miller_loop(a, b, c, d), C##_pp::reduced_pairing)
ATE(BnAte, alt_bn128, Fq12) PP(BnPp, alt_bn128, Fq12)
ATE(BlsAte, bls12_381, Fq12) PP(BlsPp, bls12_381, Fq12)
ATE(EdAte, edwards, Fq6) PP(EdPp, edwards, Fq6)
WAY(EdTate, edwards, "tate", Fq6, edwards_tate_G1_precomp, edwards_tate_G2_precomp, edwards_tate_precompute_G1, edwards_tate_precompute_G2, edwards_tate_miller_loop, loop(a, b) * loop(c, d), edwards_tate_reduced_pairing)
ATE(M4Ate, mnt4, Fq4) PP(M4Pp, mnt4, Fq4)
ATE(M6Ate, mnt6, Fq6) PP(M6Pp, mnt6, Fq6)
#define AFFINE(NAME, C, EMB) WAY(NAME, C, "f-affine", EMB, C##_affine_ate_G1_precomputation, C##_affine_ate_G2_precomputation, C##_pp::affine_ate_precompute_G1, C##_pp::affine_ate_precompute_G2, C##_pp::affine_ate_miller_loop, loop(a, b) * loop(c, d), C##_pp::affine_reduced_pairing) \
    NAME::T NAME::quot(const P1 &a, const P2 &b, const P1 &c, const P2 &d) { return C##_pp::affine_ate_e_over_e_miller_loop(a, b, c, d); } \
    NAME::T NAME::prodquot(const P1 &a, const P2 &b, const P1 &c, const P2 &d, const P1 &e, const P2 &f) { return C##_pp::affine_ate_e_times_e_over_e_miller_loop(a, b, c, d, e, f); }
AFFINE(M4Aff, mnt4, Fq4) AFFINE(M6Aff, mnt6, Fq6)
#define OVER(W) W::T W::quot(const P1 &a, const P2 &b, const P1 &c, const P2 &d) { return loop(a, b) * loop(c, d).inverse(); } \
    W::T W::prodquot(const P1 &a, const P2 &b, const P1 &c, const P2 &d, const P1 &e, const P2 &f) { return dloop(a, b, c, d) * loop(e, f).unitary_inverse(); }
OVER(BnAte) OVER(BnPp) OVER(BlsAte) OVER(BlsPp) OVER(EdAte) OVER(EdPp) OVER(EdTate) OVER(M4Ate) OVER(M4Pp) OVER(M6Ate) OVER(M6Pp)

template<class T> T stored(const T &x) { std::stringstream ss; ss << x; T y; ss >> y; return y; }
template<class T> struct CanStore { static const bool value = true; };
template<> struct CanStore<mnt4_affine_ate_G1_precomputation> { static const bool value = false; };
template<> struct CanStore<mnt4_affine_ate_G2_precomputation> { static const bool value = false; };
template<> struct CanStore<mnt6_affine_ate_G1_precomputation> { static const bool value = false; };
template<> struct CanStore<mnt6_affine_ate_G2_precomputation> { static const bool value = false; };
template<class T, bool S> struct Reload { static bool go(T &x) { T y = stored(x); bool eq = y == x; x = y; return eq; } };
template<class T> struct Reload<T, false> { static bool go(T &x) { T y(x); x = T(); x = y; return true; } };

template<class G> G times(const Z &a) { return bof<G::scalar_field::num_limbs>(a % K<typename G::scalar_field>::p()) * G::one(); }
template<class Fr> Z scalar(Rng &g, int cls) {
    const Z r = K<Fr>::p();
    switch (cls) {
    case 0: return Z(0);
    case 1: return Z((int)(1 + g.below(3)));
    case 2: return r - Z((int)(1 + g.below(3)));
    case 3: return pow2(g.below(bits(r) - 1));
    default: return zrand(g, r);
    }
}
// a root of unity of order 2, 3, 4 or 6 modulo r (1 if the order does not divide r-1)
inline Z small_root(Rng &g, const Z &r) {
    static const int orders[] = {2, 3, 4, 6}; const Z k(orders[g.below(4)]); const Z m = r - Z(1);
    if (!(m % k == Z(0))) return m;
    return powm(zrand(g, r), m / k, r);
}
// the same point in some representation
template<class G> G shaken(Rng &g, const G &p) { G x(p); if (g.chance(3, 4)) shake(g, x); return x; }

template<class W> void base_event() {
    Ev("base").raw("P", js(W::G1::one())).raw("Q", js(W::G2::one())).raw("v", k(W::reduced(W::G1::one(), W::G2::one())));
}
template<class W> void begin(int n) { Begin().str("curve", W::curve()).str("kind", W::kind()).i("n", n); base_event<W>(); }
// affine variants are judged against the pairing of the curve itself
template<class W, class V> void begin_as(int n) { Begin().str("curve", W::curve()).str("kind", W::kind()).i("n", n); base_event<V>(); }

// ------------------------------------------------------------ P21 bilinearity
template<class W, class V> void pair_event(Rng &g, const Z &a, const Z &b) {
    typename W::G1 P = shaken(g, times<typename W::G1>(a)); typename W::G2 Q = shaken(g, times<typename W::G2>(b));
    Results r;
    r.add(W::kind(), k(W::reduced(P, Q)));
    Ev("pair").raw("a", jz(a)).raw("b", jz(b)).raw("P", js(P)).raw("Q", js(Q)).raw("vs", r.json());
}
template<class W, class V> void bilinear(int salt) {
    typedef typename W::Fr Fr; typedef typename W::G1 G1; typedef typename W::G2 G2; typedef typename W::T T;
    Rng g(seed() * 104729 + salt);
    for (int t = 0; t < N(5, 40); t++) {
        begin_as<W, V>(0);
        if (t == 0) {
            for (int i = 0; i < 5; i++) for (int j = 0; j < 5; j++) if (i < 3 || j < 3) pair_event<W, V>(g, scalar<Fr>(g, i), scalar<Fr>(g, j));
        }
        for (int i = 0; i < 6; i++) pair_event<W, V>(g, scalar<Fr>(g, (int)g.below(5)), scalar<Fr>(g, (int)g.below(7)));
        for (int i = 0; i < 2; i++) {
            // points as the library derives them: sums, differences, hashes of nothing in particular
            G1 P1 = shaken(g, subgroup_point<G1>(g)), P2 = g.chance(1, 4) ? shaken(g, P1) : g.chance(1, 4) ? -P1 : g.chance(1, 5) ? some_zero<G1>(g) : subgroup_point<G1>(g), PS = P1 + P2;
            G2 Q1 = shaken(g, subgroup_point<G2>(g)), Q2 = g.chance(1, 4) ? shaken(g, Q1) : g.chance(1, 4) ? -Q1 : g.chance(1, 5) ? some_zero<G2>(g) : subgroup_point<G2>(g), QS = Q1 + Q2;
            T v1 = W::reduced(P1, Q1), v2 = W::reduced(P2, Q1), s = W::reduced(PS, Q1);
            Ev("add1").raw("P1", js(P1)).raw("P2", js(P2)).raw("S", js(PS)).raw("v1", k(v1)).raw("v2", k(v2)).raw("s", k(s));
            T w2 = W::reduced(P1, Q2), u = W::reduced(P1, QS);
            Ev("add2").raw("Q1", js(Q1)).raw("Q2", js(Q2)).raw("S", js(QS)).raw("v1", k(v1)).raw("v2", k(w2)).raw("s", k(u));
        }
    }
}
// ------------------------------------------------------- P22 pairing products
template<class W, class V> void product_program(Rng &g, const std::vector<Step> &prog) {
    typedef typename W::Fr Fr; typedef typename W::G1 G1; typedef typename W::G2 G2; typedef typename W::T T;
    const int n = 2;
    begin_as<W, V>(n);
    std::vector<typename W::P1> p(n + 1, W::pre1(some_zero<G1>(g))); std::vector<typename W::P2> q(n + 1, W::pre2(some_zero<G2>(g))); std::vector<T> f(n + 1, T::one());
    auto show = [&](int a) {
        T v = W::pp::final_exponentiation(f[a]);
        Ev("final").i("a", a).raw("v", k(v)).raw("u", k(v.unitary_inverse()));
    };
    Z dp[3], dq[3];
    const Z r = K<Fr>::p();
    auto pickz = [&](const Z *v, int d, int cls) { const Z &w = v[3 - d]; return cls == 5 ? (r - w) % r : cls == 6 ? w : cls == 7 ? w * small_root(g, r) % r : scalar<Fr>(g, cls); };
    for (const Step &s : prog) {
        const S &o = s.op(); const int d = s[1];
        if (o == "pre1") { Z a = dp[d] = pickz(dp, d, s[2]); G1 P = shaken(g, times<G1>(a)); p[d] = W::pre1(P); Ev("pre1").i("d", d).raw("a", jz(a)).raw("P", js(P)); continue; }
        if (o == "pre2") { Z b = dq[d] = pickz(dq, d, s[2]); G2 Q = shaken(g, times<G2>(b)); q[d] = W::pre2(Q); Ev("pre2").i("d", d).raw("b", jz(b)).raw("Q", js(Q)); continue; }
        if (o == "reload1") { bool e = Reload<typename W::P1, CanStore<typename W::P1>::value>::go(p[d]); Ev("reload1").i("d", d).b("eq", e); continue; }
        if (o == "reload2") { bool e = Reload<typename W::P2, CanStore<typename W::P2>::value>::go(q[d]); Ev("reload2").i("d", d).b("eq", e); continue; }
        if (o == "miller") { f[d] = W::loop(p[s[2]], q[s[3]]); Ev("miller").i("d", d).i("i", s[2]).i("j", s[3]); }
        else if (o == "double") { f[d] = W::dloop(p[s[2]], q[s[3]], p[s[4]], q[s[5]]); Ev("double").i("d", d).i("i", s[2]).i("j", s[3]).i("k", s[4]).i("m", s[5]); }
        else if (o == "quot") { f[d] = W::quot(p[s[2]], q[s[3]], p[s[4]], q[s[5]]); Ev("quot").i("d", d).i("i", s[2]).i("j", s[3]).i("k", s[4]).i("m", s[5]); }
        else if (o == "prodquot") { f[d] = W::prodquot(p[s[2]], q[s[3]], p[s[4]], q[s[5]], p[s[6]], q[s[7]]); Ev("prodquot").i("d", d).i("i", s[2]).i("j", s[3]).i("k", s[4]).i("m", s[5]).i("s", s[6]).i("t", s[7]); }
        else if (o == "mulf") { f[d] = f[s[2]] * f[s[3]]; Ev("mulf").i("d", d).i("a", s[2]).i("b", s[3]); }
        else if (o == "invf") { f[d] = f[s[2]].inverse(); Ev("invf").i("d", d).i("a", s[2]); }
        else if (o != "final") { fprintf(stderr, "unknown step %s\n", o.c_str()); exit(3); }
        show(d);
    }
}
template<class W> S raw_pairing(const typename W::G1 &P, const typename W::G2 &Q) { return k(W::pp::final_exponentiation(W::pp::pairing(P, Q))); }
template<class W> void ways(Rng &g, Results &r, const typename W::G1 &P, const typename W::G2 &Q) {
    typedef typename W::T T;
    auto FE = [](const T &x) { return k(W::pp::final_exponentiation(x)); };
    const S t = W::kind();
    r.add(t + " reduced", k(W::reduced(P, Q)));
    typename W::P1 a = W::pre1(shaken(g, P)); typename W::P2 b = W::pre2(shaken(g, Q));
    r.add(t + " loop", FE(W::loop(a, b)));
    typename W::P1 o1 = W::pre1(W::G1::zero()), n1 = W::pre1(-P); typename W::P2 o2 = W::pre2(W::G2::zero()), n2 = W::pre2(-Q);
    r.add(t + " double with identity", FE(W::dloop(a, b, o1, b)));
    r.add(t + " double identity first", FE(W::dloop(a, o2, a, b)));
    r.add(t + " double identity of G1 first", FE(W::dloop(o1, b, a, b)));
    r.add(t + " double identity of G2 second", FE(W::dloop(a, b, a, o2)));
    r.add(t + " double identities first", FE(W::dloop(o1, o2, a, b)));
    r.add(t + " double identities second", FE(W::dloop(a, b, o1, o2)));
    r.add(t + " double identities in both", FE(W::dloop(o1, b, a, o2) * W::loop(a, b)));
    r.add(t + " quotient by identity of G1", FE(W::quot(a, b, o1, b)));
    r.add(t + " quotient of identity of G2", FE(W::quot(a, o2, n1, b)));
    r.add(t + " quotient by identities", FE(W::quot(a, b, o1, o2)));
    r.add(t + " product quotient, identities", FE(W::prodquot(o1, b, a, b, a, o2)));
    r.add(t + " product quotient, more identities", FE(W::prodquot(a, b, a, o2, o1, b)));
    r.add(t + " product quotient, only identities below", FE(W::prodquot(o1, o2, a, o2, n1, b)));
    r.add(t + " two negations", FE(W::loop(n1, n2)));
    r.add(t + " inverse of negation", FE(W::loop(n1, b).inverse()));
    r.add(t + " negated second", k(W::reduced(P, -Q).unitary_inverse()));
    r.add(t + " quotient by one", FE(W::quot(a, b, a, o2)));
    r.add(t + " quotient of one", FE(W::quot(o1, b, a, n2)));
    // pairs that share an operand or cancel
    r.add(t + " double cancelling second", FE(W::dloop(a, b, a, n2) * W::loop(a, b)));
    r.add(t + " double cancelling first", FE(W::dloop(n1, b, a, b) * W::loop(a, b)));
    r.add(t + " double of one pair over it", FE(W::dloop(a, b, a, b) * W::loop(a, b).inverse()));
    r.add(t + " double negated", FE(W::dloop(n1, n2, n1, b) * W::loop(a, b)));
    r.add(t + " quotient of itself", FE(W::quot(a, b, a, b) * W::loop(a, b)));
    r.add(t + " product quotient cancelling", FE(W::prodquot(a, b, a, n2, a, n2)));
    r.add(t + " product quotient", FE(W::prodquot(a, b, a, b, a, b)));
}
template<class W> void all_ways_tail(Rng &, Results &, const typename W::G1 &, const typename W::G2 &) {}
template<class W, class V, class... X> void all_ways_tail(Rng &g, Results &r, const typename W::G1 &P, const typename W::G2 &Q) { ways<V>(g, r, P, Q); all_ways_tail<W, X...>(g, r, P, Q); }
template<class W> struct Tate { static edwards_Fq6 go(const typename W::G1 &, const typename W::G2 &) { return edwards_Fq6::one(); } };
template<> struct Tate<EdTate> { static edwards_Fq6 go(const edwards_G1 &P, const edwards_G2 &Q) { return edwards_tate_pairing(P, Q); } };
template<class W, class... X> void all_ways(int salt) {
    typedef typename W::Fr Fr;
    Rng g(seed() * 15485863 + salt);
    for (int t = 0; t < N(3, 20); t++) {
        begin<W>(0);
        for (int i = 0; i < 4; i++) {
            Z a = scalar<Fr>(g, t == 0 && i < 2 ? i : (int)g.below(7)), b = scalar<Fr>(g, t == 1 && i < 2 ? i : (int)g.below(7));
            typename W::G1 P = shaken(g, times<typename W::G1>(a)); typename W::G2 Q = shaken(g, times<typename W::G2>(b));
            Results r;
            ways<W>(g, r, P, Q); all_ways_tail<W, X...>(g, r, P, Q);
            if (S(W::kind()) != "tate") r.add("pairing then final exponentiation", raw_pairing<W>(P, Q));
            else r.add("tate pairing then final exponentiation", k(edwards_final_exponentiation(Tate<W>::go(P, Q))));
            Ev("pair").raw("a", jz(a)).raw("b", jz(b)).raw("P", js(P)).raw("Q", js(Q)).raw("vs", r.json());
        }
    }
}
// ---------------------------------------------------- P23 final exponentiation
template<class T> T sparse(Rng &g) {
    const int n = K<T>::deg;
    Z z[12];
    for (int i = 0; i < n; i++) z[i] = g.chance(1, 3) ? pick(g, K<T>::p(), K<T>::limbs) : g.chance(1, 4) ? Z(1) : Z(0);
    T x = K<T>::make(z);
    return x.is_zero() ? T::one() : x;
}
template<class W> void finalexp(int salt) {
    typedef typename W::T T; typedef typename W::Fr Fr;
    Rng g(seed() * 32452843 + salt);
    const Z r = K<Fr>::p(), pp = K<T>::p();
    auto FE = [](const T &x) { return W::pp::final_exponentiation(x); };
    for (int t = 0; t < N(6, 60); t++) {
        Begin().str("curve", W::curve()).str("kind", "final");
        std::vector<T> b;
        for (int i = 0; i < 3; i++) {
            b.push_back(i == 0 ? any_nonzero<T>(g) : i == 1 ? sparse<T>(g) : W::loop(W::pre1(subgroup_point<typename W::G1>(g)), W::pre2(subgroup_point<typename W::G2>(g))));
            Ev("febase").raw("x", k(b[i])).raw("v", k(FE(b[i])));
        }
        Ev("feonto");
        for (int i = 0; i < 7; i++) {
            std::vector<Z> e;
            T x = T::one();
            for (int j = 0; j < 3; j++) {
                Z v(0);
                switch (g.below(7)) { case 0: case 1: break; case 2: v = Z(1); break; case 3: v = Z(2); break; case 4: v = r; break; case 5: v = pp; break; default: v = zrand(g, r); }
                e.push_back(v); x *= b[j] ^ bof<18>(v);
            }
            Ev("fe").raw("es", jlist(e, jz)).raw("x", k(x)).raw("v", k(FE(x)));
        }
        // members of the subgroups that easy parts of the exponent map to
        for (int d = 1; d < K<T>::deg; d++) if (K<T>::deg % d == 0) for (int sgn = -1; sgn <= 1; sgn += 2) {
            Z q(1); for (int j = 0; j < d; j++) q = q * pp;
            const Z v = sgn < 0 ? q - Z(1) : q + Z(1); const int which = (int)g.below(2);
            T x = T::one(); std::vector<Z> e;
            for (int j = 0; j < 3; j++) e.push_back(j == which ? v : j == 2 && g.chance(1, 3) ? Z(1) : Z(0));
            for (int j = 0; j < 3; j++) x *= b[j] ^ bof<60>(e[j]);
            Ev("fe").raw("es", jlist(e, jz)).raw("x", k(x)).raw("v", k(FE(x)));
        }
        // subfields: one, the prime field, and the relative norms of random elements
        for (int d = 1; d < K<T>::deg; d++) if (K<T>::deg % d == 0) {
            T y = any_nonzero<T>(g), x = T::one();
            for (int i = 0; i < (int)K<T>::deg / d; i++) { x *= y; for (int j = 0; j < d; j++) y = y ^ bof<18>(pp); }
            if (d == 1 && g.chance(1, 2)) { Z c[12]; c[0] = zrand(g, pp - Z(1)) + Z(1); x = K<T>::make(c); }
            Ev("fesub").i("d", d).raw("x", k(x)).raw("v", k(FE(x)));
        }
    }
}
int main(int, char **argv) {
    open_trace(argv[1]); os_().cpu_limit = 120;
    init_all_curves();
    const S mode = argv[2];
    int s = 0;
    if (mode == "bilinear") {
        ++s; TASK(bilinear<BnPp, BnPp>(s)); ++s; TASK(bilinear<BlsPp, BlsPp>(s)); ++s; TASK(bilinear<EdPp, EdPp>(s)); ++s; TASK(bilinear<EdTate, EdTate>(s));
        ++s; TASK(bilinear<M4Pp, M4Pp>(s)); ++s; TASK(bilinear<M6Pp, M6Pp>(s)); ++s; TASK(bilinear<M4Aff, M4Pp>(s)); ++s; TASK(bilinear<M6Aff, M6Pp>(s));
    } else if (mode == "final") {
        ++s; TASK(finalexp<BnAte>(s)); ++s; TASK(finalexp<BlsAte>(s)); ++s; TASK(finalexp<EdAte>(s)); ++s; TASK(finalexp<M4Ate>(s)); ++s; TASK(finalexp<M6Ate>(s));
    } else if (mode == "ways") {
        ++s; TASK(all_ways<BnPp, BnAte>(s)); ++s; TASK(all_ways<BlsPp, BlsAte>(s)); ++s; TASK(all_ways<EdPp, EdAte>(s)); ++s; TASK(all_ways<EdTate>(s));
        ++s; TASK(all_ways<M4Pp, M4Ate, M4Aff>(s)); ++s; TASK(all_ways<M6Pp, M6Ate, M6Aff>(s));
    } else {
        std::vector<std::vector<Step>> progs = read_programs(argv[3]);
        Rng g(seed() * 49979687);
        size_t i = 0;
        for (const auto &pr : progs) switch (i++ % 8) {
            case 0: product_program<BnPp, BnAte>(g, pr); break;
            case 1: product_program<BlsPp, BlsAte>(g, pr); break;
            case 2: product_program<EdPp, EdAte>(g, pr); break;
            case 3: product_program<EdTate, EdTate>(g, pr); break;
            case 4: product_program<M4Pp, M4Ate>(g, pr); break;
            case 5: product_program<M6Pp, M6Ate>(g, pr); break;
            case 6: product_program<M4Aff, M4Ate>(g, pr); break;
            case 7: product_program<M6Aff, M6Ate>(g, pr); break;
        }
    }
    close_trace();
}
