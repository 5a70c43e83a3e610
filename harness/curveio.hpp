// Reading, building and re-representing points of the shipped curves.
#pragma once
#include "fieldio.hpp"
#include "curves_fields.hpp"
#include <libff/algebra/curves/alt_bn128/alt_bn128_pp.hpp>
#include <libff/algebra/curves/bls12_381/bls12_381_pp.hpp>
#include <libff/algebra/curves/edwards/edwards_pp.hpp>
#include <libff/algebra/curves/mnt/mnt4/mnt4_pp.hpp>
#include <libff/algebra/curves/mnt/mnt6/mnt6_pp.hpp>
#include <libff/common/profiling.hpp>

namespace vt {
inline void init_all_curves() {
    libff::inhibit_profiling_info = true;
    libff::inhibit_profiling_counters = true;
    alt_bn128_pp::init_public_params(); bls12_381_pp::init_public_params(); edwards_pp::init_public_params();
    mnt4_pp::init_public_params(); mnt6_pp::init_public_params();
}
enum Model { JACOBIAN, PROJECTIVE, INVERTED };
template<class G> struct C;
#define CURVE_GROUP(T, FT, M, COF, PRIME) \
    template<> struct C<T> { typedef FT F; static const Model model = M; static const bool has_cofactor = COF, prime_order_only = PRIME; static const char *name() { return #T; } };
CURVE_GROUP(alt_bn128_G1, alt_bn128_Fq, JACOBIAN, true, false)
CURVE_GROUP(alt_bn128_G2, alt_bn128_Fq2, JACOBIAN, true, false)
CURVE_GROUP(bls12_381_G1, bls12_381_Fq, JACOBIAN, true, false)
CURVE_GROUP(bls12_381_G2, bls12_381_Fq2, JACOBIAN, true, false)
CURVE_GROUP(edwards_G1, edwards_Fq, INVERTED, false, true)
CURVE_GROUP(edwards_G2, edwards_Fq3, INVERTED, false, true)
CURVE_GROUP(mnt4_G1, mnt4_Fq, PROJECTIVE, true, false)
CURVE_GROUP(mnt4_G2, mnt4_Fq2, PROJECTIVE, true, false)
CURVE_GROUP(mnt6_G1, mnt6_Fq, PROJECTIVE, true, false)
CURVE_GROUP(mnt6_G2, mnt6_Fq3, PROJECTIVE, true, false)
#define ALL_GROUPS(X) X(alt_bn128_G1) X(alt_bn128_G2) X(bls12_381_G1) X(bls12_381_G2) X(edwards_G1) X(edwards_G2) X(mnt4_G1) X(mnt4_G2) X(mnt6_G1) X(mnt6_G2)

// affine coordinates as the library computes them
template<class G> std::string js(const G &p) {
    typedef typename C<G>::F F;
    if (p.is_zero()) return "[]";
    G c(p);
    c.to_affine_coordinates();
    return "[" + K<F>::js(c.X) + "," + K<F>::js(c.Y) + "]";
}
template<class V> std::string jpts(const V &v) { return jlist(v, [](const typename V::value_type &p) { return js(p); }); }

// multiply the coordinates by the scale that leaves the point alone
template<class G> void rescale(G &p, const typename C<G>::F &u) {
    switch (C<G>::model) {
    case JACOBIAN: p.X *= u * u; p.Y *= u * u * u; p.Z *= u; break;
    default: p.X *= u; p.Y *= u; p.Z *= u;
    }
}
template<class G> G from_affine(const typename C<G>::F &x, const typename C<G>::F &y) { return G(x, y, C<G>::F::one()); }
template<> inline edwards_G1 from_affine<edwards_G1>(const edwards_Fq &x, const edwards_Fq &y) { return edwards_G1(x, y); }
template<> inline edwards_G2 from_affine<edwards_G2>(const edwards_Fq3 &x, const edwards_Fq3 &y) { return edwards_G2(x, y); }
// curve coefficients, from the specification side: y^2 = x^3 + a x + b
template<class F> F konst(const char *c0) { Z z[6]; z[0] = Z(c0); return K<F>::make(z); }
#define MNT4_B "423894536526684178289416011533888240029318103673896002803341544124054745019340795360841685"
#define MNT6_B "106700080510851735677967319632585352256454251201367587890185989362936000262606668469523074"
template<class G> struct Coef;
template<> struct Coef<alt_bn128_G1> { static alt_bn128_Fq a() { return alt_bn128_Fq::zero(); } static alt_bn128_Fq b() { return alt_bn128_Fq(3); } };
template<> struct Coef<alt_bn128_G2> { static alt_bn128_Fq2 a() { return alt_bn128_Fq2::zero(); } static alt_bn128_Fq2 b() { return alt_bn128_Fq2(3, 0) * alt_bn128_Fq2(9, 1).inverse(); } };
template<> struct Coef<bls12_381_G1> { static bls12_381_Fq a() { return bls12_381_Fq::zero(); } static bls12_381_Fq b() { return bls12_381_Fq(4); } };
template<> struct Coef<bls12_381_G2> { static bls12_381_Fq2 a() { return bls12_381_Fq2::zero(); } static bls12_381_Fq2 b() { return bls12_381_Fq2(4, 4); } };
template<> struct Coef<mnt4_G1> { static mnt4_Fq a() { return mnt4_Fq(2); } static mnt4_Fq b() { return konst<mnt4_Fq>(MNT4_B); } };
template<> struct Coef<mnt4_G2> { static mnt4_Fq2 a() { return mnt4_Fq2(34, 0); } static mnt4_Fq2 b() { return mnt4_Fq2(0, konst<mnt4_Fq>(MNT4_B) * 17); } };
template<> struct Coef<mnt6_G1> { static mnt6_Fq a() { return mnt6_Fq(11); } static mnt6_Fq b() { return konst<mnt6_Fq>(MNT6_B); } };
template<> struct Coef<mnt6_G2> { static mnt6_Fq3 a() { return mnt6_Fq3(0, 0, 11); } static mnt6_Fq3 b() { return mnt6_Fq3(konst<mnt6_Fq>(MNT6_B) * 5, 0, 0); } };

template<class F> Z field_size() { Z s(1); for (int i = 0; i < K<F>::deg; i++) s = s * K<F>::p(); return s; }
template<class F> bool is_square(const F &x) {
    if (x.is_zero()) return true;
    Z e = (field_size<F>() - Z(1)) / Z(2);
    return (x ^ bof<18>(e)) == F::one();
}
template<class G, bool PRIME = C<G>::prime_order_only> struct AnyPoint {
    // any point of the curve, by solving for y
    static G get(Rng &g) {
        typedef typename C<G>::F F;
        for (;;) {
            F x = any<F>(g), r = x * x * x + Coef<G>::a() * x + Coef<G>::b();
            if (r.is_zero() || !is_square(r)) continue;
            F y = r.sqrt();
            return from_affine<G>(x, g.chance(1, 2) ? y : -y);
        }
    }
};
template<class G> struct AnyPoint<G, true> {
    static G get(Rng &g) { return bof<G::scalar_field::num_limbs>(zrand(g, K<typename G::scalar_field>::p())) * G::one(); }
};
template<class G> G any_point(Rng &g) { return AnyPoint<G>::get(g); }
template<class G> G subgroup_point(Rng &g) { return AnyPoint<G, true>::get(g); }
// another representation of the same point, possibly of the identity
// scales: opposite of one, roots of unity of small order, anything
template<class F> F some_scale(Rng &g) {
    static const int orders[] = {2, 3, 4, 6, 8};
    switch (g.below(4)) {
    case 0: return -F::one();
    case 1: { Z m = zpow(K<F>::p(), K<F>::deg) - Z(1), k(orders[g.below(5)]); if (!(m % k == Z(0))) return -F::one(); return any_nonzero<F>(g) ^ bof<40>(m / k); }
    default: return any_nonzero<F>(g);
    }
}
template<class G> void shake(Rng &g, G &p) {
    switch (g.below(6)) {
    case 0: p.to_special(); break;
    case 1: break;
    case 2: p.to_special(); rescale(p, some_scale<typename C<G>::F>(g)); break;
    case 3: rescale(p, some_scale<typename C<G>::F>(g)); break;
    default: rescale(p, any_nonzero<typename C<G>::F>(g));
    }
}
// the identity as operations may leave it
template<class G> G some_zero(Rng &g) {
    switch (g.below(5)) {
    case 0: return G::zero();
    case 1: { G p = subgroup_point<G>(g); return p - p; }
    case 2: { G p = subgroup_point<G>(g), q(p); rescale(q, any_nonzero<typename C<G>::F>(g)); return p + (-q); }
    case 3: { G p = G::zero(); rescale(p, any_nonzero<typename C<G>::F>(g)); return p; }
    default: return G::zero().dbl();
    }
}
// points of the curve over a quadratic extension whose y is a multiple of the root
template<class G, class Fq> struct PureY {
    static G get(Rng &g) {
        typedef typename C<G>::F F;
        const Fq nr = F(Fq(0), Fq(1)).squared().c0, A = Coef<G>::a().c0, B = Coef<G>::b().c1;
        for (;;) {
            Fq b = any_nonzero<Fq>(g), a2 = -(nr * b * b * b + A * b + B) * (Fq(3) * b).inverse();
            if (a2.is_zero() || !is_square(a2)) continue;
            F x(a2.sqrt(), b), r = x * x * x + Coef<G>::a() * x + Coef<G>::b();
            if (is_square(r.c0)) continue;
            F y = r.sqrt();
            return from_affine<G>(x, g.chance(1, 2) ? y : -y);
        }
    }
};
template<class G> struct Odd { static G get(Rng &g) { return any_point<G>(g); } };
template<> struct Odd<alt_bn128_G2> : PureY<alt_bn128_G2, alt_bn128_Fq> {};
template<> struct Odd<bls12_381_G2> : PureY<bls12_381_G2, bls12_381_Fq> {};
template<> struct Odd<mnt4_G2> : PureY<mnt4_G2, mnt4_Fq> {};
template<class G> G odd_point(Rng &g) { return Odd<G>::get(g); }
template<class G> G any_operand(Rng &g) {
    if (g.chance(1, 7)) return some_zero<G>(g);
    G p = g.chance(1, 3) ? g.chance(1, 4) ? odd_point<G>(g) : any_point<G>(g) : subgroup_point<G>(g);
    shake(g, p);
    return p;
}
// scalars where carries, doublings and window boundaries happen
template<mp_size_t n> Z any_scalar(Rng &g, const Z &r) {
    switch (g.below(9)) {
    case 0: return Z((int)g.below(20));
    case 1: return pow2(g.below(64 * n));
    case 2: return pow2(1 + g.below(64 * n)) - Z(1);
    case 3: return limb_pattern(g, n);
    case 4: return (r * Z((int)g.below(3)) + Z((int)g.below(5))) % pow2(64 * n);
    case 5: { Z z = r - Z(1) - Z((int)g.below(4)); return z % pow2(64 * n); }
    case 6: return zrand(g, pow2(64 * n));
    case 7: return zrand(g, pow2(1 + g.below(64 * n)));
    default: return zrand(g, r) % pow2(64 * n);
    }
}
} // namespace vt
