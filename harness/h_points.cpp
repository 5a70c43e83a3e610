// P20: serialization of points, lists of points and pairing precomputations.
#include "curveio.hpp"
#include "streamio.hpp"
using namespace vt;
typedef std::string S;
template<class F> S k(const F &x) { return K<F>::js(x); }
inline S flat(std::initializer_list<S> xs) { return jlist(xs, [](const S &s) { return s; }); }

template<class G> void write_point(Prog &p, Rng &g, std::vector<G> &pool, int kind = -1, int size = -1) {
    const S name = C<G>::name();
    auto pk = [&]() {
        G x = g.chance(1, 2) ? pool[g.below(pool.size())] : g.chance(1, 6) ? odd_point<G>(g) : any_operand<G>(g);
        if (g.chance(1, 3)) x = -x;
        if (g.chance(1, 2)) shake(g, x);
        pool[g.below(pool.size())] = x;
        return x;
    };
    auto J = [](const G &x) { return js(x); };
    auto JV = [](const std::vector<G> &x) { return jpts(x); };
    auto some = [&](int n) { return size >= 0 ? size : (int)g.below(n); };
    switch (kind >= 0 ? kind : (int)g.below(6)) {
    default: p.write(name, pk(), J, [&g]() { return any_operand<G>(g); }, true); break;
    case 3: { std::vector<G> v; for (int i = size >= 0 ? size : len_of(g, 5); i > 0; i--) v.push_back(pk());
        p.write("vec " + name, v, JV, [&g]() { return std::vector<G>(g.below(3), G::one()); }, g.chance(1, 2)); break; }
    case 4: { std::vector<std::vector<G>> v; for (int i = some(3); i > 0; i--) { v.push_back({}); for (int j = (int)g.below(3); j > 0; j--) v.back().push_back(pk()); }
        p.write("vecvec " + name, v, [JV](const std::vector<std::vector<G>> &x) { return jlist(x, JV); }, [&g]() { return std::vector<std::vector<G>>(g.below(2), std::vector<G>(1, G::one())); }, g.chance(1, 2)); break; }
    case 5: { std::map<size_t, G> m; for (int i = some(4); i > 0; i--) { size_t k = g.below(20); G x = pk(); m[k] = x; }
        p.write("map " + name, m, [](const std::map<size_t, G> &x) { return jlist(x, [](const std::pair<const size_t, G> &e) { return "[" + ju64(e.first) + "," + js(e.second) + "]"; }); },
                [&g]() { std::map<size_t, G> d; d[g.below(20)] = G::one(); return d; }, g.chance(1, 2)); break; }
    }
}
template<class F> void write_field(Prog &p, Rng &g, const S &name) {
    if (g.chance(1, 2)) p.write(name, any<F>(g), [](const F &v) { return K<F>::js(v); }, [&g]() { return any<F>(g); }, true);
    else { std::vector<F> v; for (int i = (int)g.below(3); i > 0; i--) v.push_back(any<F>(g));
        p.write("vec " + name, v, [](const std::vector<F> &x) { return jlist(x, [](const F &y) { return K<F>::js(y); }); }, []() { return std::vector<F>(); }, false); }
}
template<class G> void points(int salt) {
    typedef typename C<G>::F F; typedef typename G::scalar_field Fr;
    Rng g(seed() * 2147483659u + salt);
    for (int t = 0; t < N(7, 60); t++) {
        Prog p(g);
        std::vector<G> pool = {G::zero(), G::one(), -G::one(), any_operand<G>(g), odd_point<G>(g)};
        for (int i = 0; i < 14; i++) {
            if (g.chance(1, 5)) { if (g.chance(1, 2)) write_field<F>(p, g, "field"); else write_field<Fr>(p, g, "scalar"); } else write_point<G>(p, g, pool);
            while (g.chance(2, 5)) p.read();
        }
        // every kind of container, empty, with one element, with two
        if (t < 3) for (int kind = 3; kind <= 5; kind++) { write_point<G>(p, g, pool, kind, t); if (g.chance(1, 2)) p.read(); }
        p.finish();
        for (int i = 0; i < 3; i++) { G x = pool[i + 2], y = reserialize<G>(x); Ev("cycle").raw("v", js(x)).raw("r", js(y)); }
        { std::vector<G> y = reserialize<std::vector<G>>(pool); Ev("cycle").raw("v", jpts(pool)).raw("r", jpts(y)); }
    }
}
// ------------------------------------------------------------ precomputations
#define PRECOMP(T, ...) static S J(const T &c) { return flat({__VA_ARGS__}); }
PRECOMP(alt_bn128_ate_G1_precomp, k(c.PX), k(c.PY))
PRECOMP(alt_bn128_ate_ell_coeffs, k(c.ell_0), k(c.ell_VW), k(c.ell_VV))
PRECOMP(alt_bn128_ate_G2_precomp, k(c.QX), k(c.QY), jlist(c.coeffs, [](const alt_bn128_ate_ell_coeffs &e) { return J(e); }))
PRECOMP(bls12_381_ate_G1_precomp, k(c.PX), k(c.PY))
PRECOMP(bls12_381_ate_ell_coeffs, k(c.ell_0), k(c.ell_VW), k(c.ell_VV))
PRECOMP(bls12_381_ate_G2_precomp, k(c.QX), k(c.QY), jlist(c.coeffs, [](const bls12_381_ate_ell_coeffs &e) { return J(e); }))
PRECOMP(edwards_ate_G1_precomp, k(c.P_XY), k(c.P_XZ), k(c.P_ZZplusYZ))
PRECOMP(edwards_Fq3_conic_coefficients, k(c.c_ZZ), k(c.c_XY), k(c.c_XZ))
PRECOMP(edwards_Fq_conic_coefficients, k(c.c_ZZ), k(c.c_XY), k(c.c_XZ))
static S J(const edwards_ate_G2_precomp &v) { return jlist(v, [](const edwards_Fq3_conic_coefficients &e) { return J(e); }); }
static S J(const edwards_tate_G1_precomp &v) { return jlist(v, [](const edwards_Fq_conic_coefficients &e) { return J(e); }); }
PRECOMP(edwards_tate_G2_precomp, k(c.y0), k(c.eta))
#define MNT(c4) \
PRECOMP(c4##_ate_G1_precomp, k(c.PX), k(c.PY), k(c.PX_twist), k(c.PY_twist)) \
PRECOMP(c4##_ate_dbl_coeffs, k(c.c_H), k(c.c_4C), k(c.c_J), k(c.c_L)) \
PRECOMP(c4##_ate_add_coeffs, k(c.c_L1), k(c.c_RZ)) \
PRECOMP(c4##_ate_G2_precomp, k(c.QX), k(c.QY), k(c.QY2), k(c.QX_over_twist), k(c.QY_over_twist), jlist(c.dbl_coeffs, [](const c4##_ate_dbl_coeffs &e) { return J(e); }), jlist(c.add_coeffs, [](const c4##_ate_add_coeffs &e) { return J(e); }))
MNT(mnt4) MNT(mnt6)

// change one part of a precomputation, so that it is another one
namespace vt {
template<class F> auto bump(F &x, Rng &) -> decltype(x += F::one(), void()) { x += F::one(); }
template<class... X> void bump_one(Rng &g, X &... xs) { size_t i = g.below(sizeof...(xs)), n = 0; int all[] = {(n++ == i ? bump(xs, g) : void(), 0)...}; (void)all; }
template<class E> void bump(std::vector<E> &v, Rng &g);
#define BUMP(T, ...) static void bump(T &c, Rng &g) { bump_one(g, __VA_ARGS__); }
BUMP(alt_bn128_ate_ell_coeffs, c.ell_0, c.ell_VW, c.ell_VV)
BUMP(bls12_381_ate_ell_coeffs, c.ell_0, c.ell_VW, c.ell_VV)
BUMP(edwards_Fq3_conic_coefficients, c.c_ZZ, c.c_XY, c.c_XZ)
BUMP(edwards_Fq_conic_coefficients, c.c_ZZ, c.c_XY, c.c_XZ)
BUMP(mnt4_ate_dbl_coeffs, c.c_H, c.c_4C, c.c_J, c.c_L)
BUMP(mnt6_ate_dbl_coeffs, c.c_H, c.c_4C, c.c_J, c.c_L)
BUMP(mnt4_ate_add_coeffs, c.c_L1, c.c_RZ)
BUMP(mnt6_ate_add_coeffs, c.c_L1, c.c_RZ)
template<class E> void bump(std::vector<E> &v, Rng &g) { switch (v.size() > 1 ? g.below(6) : 5) { case 0: v.pop_back(); break; case 1: v.push_back(v.back()); break;
    default: bump(g.chance(1, 3) ? v.back() : g.chance(1, 3) ? v.front() : v[g.below(v.size())], g); } }
BUMP(alt_bn128_ate_G1_precomp, c.PX, c.PY)
BUMP(bls12_381_ate_G1_precomp, c.PX, c.PY)
BUMP(alt_bn128_ate_G2_precomp, c.QX, c.QY, c.coeffs)
BUMP(bls12_381_ate_G2_precomp, c.QX, c.QY, c.coeffs)
BUMP(edwards_ate_G1_precomp, c.P_XY, c.P_XZ, c.P_ZZplusYZ)
BUMP(edwards_tate_G2_precomp, c.y0, c.eta)
BUMP(mnt4_ate_G1_precomp, c.PX, c.PY, c.PX_twist, c.PY_twist)
BUMP(mnt6_ate_G1_precomp, c.PX, c.PY, c.PX_twist, c.PY_twist)
BUMP(mnt4_ate_G2_precomp, c.QX, c.QY, c.QY2, c.QX_over_twist, c.QY_over_twist, c.dbl_coeffs, c.add_coeffs)
BUMP(mnt6_ate_G2_precomp, c.QX, c.QY, c.QY2, c.QX_over_twist, c.QY_over_twist, c.dbl_coeffs, c.add_coeffs)
}
template<class T> void compare(const T &x, Rng &g) {
    for (int i = 0; i < N(12, 60); i++) { T y(x); if (i) bump(y, g); Ev("compare").raw("v", J(x)).raw("w", J(y)).b("r", i % 2 ? x == y : y == x); }
}
template<class T> void put(Prog &p, const S &t, const T &x, const T &dirty, bool sep) {
    p.write(t, x, [](const T &v) { return J(v); }, [dirty]() { return dirty; }, sep);
}
template<class G1, class G2, class A, class B> void precomps(const S &t, int salt, A (*pre1)(const G1 &), B (*pre2)(const G2 &)) {
    Rng g(seed() * 4256249 + salt);
    for (int i = 0; i < N(2, 10); i++) {
        Prog p(g);
        A a = pre1(subgroup_point<G1>(g)), a2 = pre1(G1::one()); G1 q1 = subgroup_point<G1>(g); shake(g, q1); A a3 = pre1(q1);
        G2 q = subgroup_point<G2>(g); shake(g, q);
        B b = pre2(q), b2 = pre2(G2::one());
        put(p, t + " prec G1", a, a2, true); put(p, t + " prec G2", b, b2, true); p.read();
        p.write(C<G1>::name(), q1, [](const G1 &x) { return js(x); }, []() { return G1::one(); }, true);
        put(p, t + " prec G1", a3, a, true); put(p, t + " prec G2", b2, b, true); put(p, t + " prec G1", a, a2, true);
        p.write(C<G2>::name(), q, [](const G2 &x) { return js(x); }, []() { return G2::one(); }, true);
        p.finish();
        if (i < N(1, 4)) { compare(b, g); compare(a, g); }
        if (i == 0) { Ev("cycle").raw("v", J(b)).raw("r", J(reserialize<B>(b))); Ev("cycle").raw("v", J(a)).raw("r", J(reserialize<A>(a))); }
    }
}
// can be compiled in three pieces, with -DPART=0, 1, 2
#define D(T) { ++s; TASK(points<T>(s)); }
#if !defined PART || PART == 1
void points1(int s) { D(alt_bn128_G1) D(alt_bn128_G2) D(bls12_381_G1) D(bls12_381_G2) D(edwards_G1) }
#endif
#if !defined PART || PART == 2
void points2(int s) { D(edwards_G2) D(mnt4_G1) D(mnt4_G2) D(mnt6_G1) D(mnt6_G2) }
#endif
#if !defined PART || PART == 0
void points1(int s); void points2(int s);
int main(int, char **argv) {
    open_trace(argv[1]);
    init_all_curves();
    points1(0); points2(5);
    int s = 10;
#define PRE(c, A) { ++s; TASK(precomps<c##_G1, c##_G2>(#c #A, s, c##_##A##_precompute_G1, c##_##A##_precompute_G2)); }
    PRE(alt_bn128, ate) PRE(bls12_381, ate) PRE(edwards, ate) PRE(edwards, tate) PRE(mnt4, ate) PRE(mnt6, ate)
    close_trace();
}
#endif
