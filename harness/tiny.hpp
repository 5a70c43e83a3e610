// The field templates instantiated over the prime 13, where whole fields (or
// whole multiplication tables) can be enumerated.
#pragma once
#include "fielddrive.hpp"
extern libff::bigint<1> tiny_p;
namespace vt {
typedef Fp_model<1, tiny_p> T1; typedef Fp2_model<1, tiny_p> T2; typedef Fp3_model<1, tiny_p> T3; typedef Fp4_model<1, tiny_p> T4;
typedef Fp6_2over3_model<1, tiny_p> T6a; typedef Fp6_3over2_model<1, tiny_p> T6b; typedef Fp12_2over3over2_model<1, tiny_p> T12;
template<class F, int W> void ts_params(int deg, const F &nqr) {
    Z q1 = zpow(Z(13), deg) - Z(1); size_t s = mpz_scan1(q1.v, 0); Z t = q1 / pow2(s);
    F::euler = bof<W>(q1 / Z(2)); F::s = s; F::t = bof<W>(t); F::t_minus_1_over_2 = bof<W>((t - Z(1)) / Z(2));
    F::nqr = nqr; F::nqr_to_t = nqr ^ F::t;
}
inline void init_tiny() {
    tiny_p = bigint<1>(13ul);
    Z p(13), R = pow2(64);
    T1::Rsquared = bof<1>(R * R % p); T1::Rcubed = bof<1>(R * R * R % p);
    T1::inv = (mp_limb_t)mpz_get_ui((R - inv(p, R)).v);
    T1::num_bits = 4; T1::multiplicative_generator = T1(2); T1::root_of_unity = T1(2) ^ 3ul;
    ts_params<T1, 1>(1, T1(2));
    auto fc = [&](int i, int mult, int div) { return Z(mult) * (zpow(p, i) - Z(1)) / Z(div); };
    T2::non_residue = T1(2); T3::non_residue = T1(2); T4::non_residue = T1(2); T6a::non_residue = T1(2);
    for (int i = 0; i < 2; i++) T2::Frobenius_coeffs_c1[i] = T1(2) ^ bof<8>(fc(i, 1, 2));
    for (int i = 0; i < 3; i++) { T3::Frobenius_coeffs_c1[i] = T1(2) ^ bof<8>(fc(i, 1, 3)); T3::Frobenius_coeffs_c2[i] = T1(2) ^ bof<8>(fc(i, 2, 3)); }
    for (int i = 0; i < 4; i++) T4::Frobenius_coeffs_c1[i] = T1(2) ^ bof<8>(fc(i, 1, 4));
    for (int i = 0; i < 6; i++) T6a::Frobenius_coeffs_c1[i] = T1(2) ^ bof<8>(fc(i, 1, 6));
    // smallest a + u that is neither a square nor a cube in T2
    T2 xi;
    for (long a = 0;; a++) { xi = T2(T1(a), T1::one()); if ((xi ^ 84ul) != T2::one() && (xi ^ 56ul) != T2::one()) break; }
    T6b::non_residue = xi; T12::non_residue = xi;
    for (int i = 0; i < 6; i++) { T6b::Frobenius_coeffs_c1[i] = xi ^ bof<8>(fc(i, 1, 3)); T6b::Frobenius_coeffs_c2[i] = xi ^ bof<8>(fc(i, 2, 3)); }
    for (int i = 0; i < 12; i++) T12::Frobenius_coeffs_c1[i] = xi ^ bof<8>(fc(i, 1, 6));
    ts_params<T2, 2>(2, T2(T1(0), T1(1)));                  // u^2 = 2, 2 = g: u is a non-square
    T3 n3; for (long a = 0;; a++) { n3 = T3(T1(a), T1(1), T1(0)); if ((n3 ^ bof<3>((zpow(p, 3) - Z(1)) / Z(2))) != T3::one()) break; }
    ts_params<T3, 3>(3, n3);
    T4 n4; for (long a = 0;; a++) { n4 = T4(T2(T1(a), T1(0)), T2::one()); if ((n4 ^ bof<4>((zpow(p, 4) - Z(1)) / Z(2))) != T4::one()) break; }
    ts_params<T4, 4>(4, n4);
    T6a n6; for (long a = 0;; a++) { n6 = T6a(T3(T1(a), T1(0), T1(0)), T3::one()); if ((n6 ^ bof<6>((zpow(p, 6) - Z(1)) / Z(2))) != T6a::one()) break; }
    ts_params<T6a, 6>(6, n6);
    T6b n7; for (long a = 0;; a++) { n7 = T6b(T2(T1(a), T1(0)), T2::one(), T2::zero()); if ((n7 ^ bof<6>((zpow(p, 6) - Z(1)) / Z(2))) != T6b::one()) break; }
    ts_params<T6b, 6>(6, n7);
    T12 n12; for (long a = 0;; a++) { n12 = T12(T6b(T2(T1(a), T1(0)), T2::zero(), T2::zero()), T6b::one()); if ((n12 ^ bof<12>((zpow(p, 12) - Z(1)) / Z(2))) != T12::one()) break; }
    ts_params<T12, 12>(12, n12);
}
inline std::string jp() { return "{\"k\":\"p\",\"p\":[13]}"; }
inline std::string jx(const std::string &b, int d, const std::string &nr) { return "{\"k\":\"x\",\"b\":" + b + ",\"d\":" + std::to_string(d) + ",\"nr\":" + nr + "}"; }
inline FieldId id1() { return {"F", jp(), 901, {}}; }
inline FieldId id2() { return {"F", jx(jp(), 2, "[2]"), 902, {{1, jp()}}}; }
inline FieldId id3() { return {"F", jx(jp(), 3, "[2]"), 903, {{1, jp()}}}; }
inline FieldId id4() { return {"F", jx(id2().desc, 2, K<T2>::js(T2(T1(0), T1(1)))), 904, {{1, jp()}, {2, id2().desc}}}; }
inline FieldId id6a() { return {"F", jx(id3().desc, 2, K<T3>::js(T3(T1(0), T1(1), T1(0)))), 905, {{1, jp()}, {3, id3().desc}}}; }
inline FieldId id6b() { return {"F", jx(id2().desc, 3, K<T2>::js(T6b::non_residue)), 906, {{1, jp()}, {2, id2().desc}}}; }
inline FieldId id12() { return {"F", jx(id6b().desc, 2, K<T6b>::js(T6b(T2::zero(), T2::one(), T2::zero()))), 907, {{1, jp()}, {2, id2().desc}, {6, id6b().desc}}}; }

// whole tables of the unary operations (or a stride-sampled part of large fields), and of products
template<class F> void enumerate(const FieldId &id, const std::string &mode, Rng &g) {
    const long q = tiny_size<F>(), B = 256; const int D = K<F>::deg;
    const long budget = N(2500, 400000);
    auto ranges = [&](std::function<void(long, long)> f) {
        if (q <= budget) for (long i = 0; i < q; i += B) f(i, std::min(q, i + B));
        else for (long k = 0; k < budget / B; k++) { long i = (long)g.below(q - B); f(i, i + B); }
    };
    if (mode == "forms" || mode == "arith") {
        ranges([&](long a, long b) { table<F>("sqr", id, a, b, [](const F &x) { return x.squared(); }); });
        ranges([&](long a, long b) { table<F>("neg", id, a, b, [](const F &x) { return -x; }); });
        ranges([&](long a, long b) { table<F>("mul", id, a, b, [](const F &x) { F y = x; y *= y; return y; }, -1); });
        long rows = D == 1 ? q : D == 2 ? q : N(10, 300);
        for (long k = 0; k < rows; k++) {
            long ai = D <= 2 ? k : (long)g.below(q); F a = nth<F>(ai);
            long from = D <= 2 ? 0 : (long)g.below(std::max(1l, q - 200)), to = D <= 2 ? q : std::min(q, from + 200);
            table<F>("mul", id, from, to, [&](const F &x) { return a * x; }, ai);
            table<F>("add", id, from, to, [&](const F &x) { return a + x; }, ai);
            table<F>("sub", id, from, to, [&](const F &x) { return a - x; }, ai);
        }
    }
    if (mode == "inv") {
        ranges([&](long a, long b) { table<F>("inv", id, std::max(1l, a), b, [](const F &x) { return x.inverse(); }); });
        for (long e = 0; e < (D <= 2 ? 40 : 12); e++) ranges([&](long a, long b) { if (D <= 2 || g.chance(1, 8)) table<F>("pow", id, a, b, [&](const F &x) { return x ^ (unsigned long)e; }, e); });
    }
    if (mode == "sqrt") ranges([&](long a, long b) { table<F>("sqrtsq", id, a, b, [](const F &x) { return (x * x).sqrt(); }); });
    if (mode == "frob") for (int k = 0; k <= D + 1; k++) ranges([&](long a, long b) { if (q <= 200 || D <= 2 || g.chance(1, 2)) table<F>("frob", id, a, b, [&](const F &x) { return x.Frobenius_map(k); }, k); });
}
template<class F> void enumerate_cyc(const FieldId &id, Rng &g) {
    const long q = tiny_size<F>(), B = 128; const int D = K<F>::deg; Z p(13), p2 = p * p, phi = D == 4 ? p2 + Z(1) : D == 6 ? p2 - p + Z(1) : p2 * p2 - p2 + Z(1);
    Z full = zpow(p, D) - Z(1); auto up = [&](const F &x) { return x ^ bof<2>(full / phi); };
    for (int k = 0; k < N(3, 60); k++) {
        long i = 1 + (long)g.below(q - B - 1);
        table<F>("cycsqr", id, i, i + B, [&](const F &x) { return up(x).cyclotomic_squared(); });
        table<F>("cycinv", id, i, i + B, [&](const F &x) { return up(x).unitary_inverse(); });
        unsigned long e = g.below(200); table<F>("cycpow", id, i, i + B, [&](const F &x) { return up(x).cyclotomic_exp(bigint<1>(e)); }, (long)e);
    }
}
} // namespace vt
