// Every published constant of the shipped fields and curves, as JSON records.
#pragma once
#include "curveio.hpp"
namespace vt {
typedef std::string S;
struct Rec {
    S s = "{";
    Rec &raw(const char *k, const S &j) { if (s.size() > 1) s += ","; s += "\""; s += k; s += "\":"; s += j; return *this; }
    Rec &i(const char *k, long v) { return raw(k, std::to_string(v)); }
    Rec &b(const char *k, bool v) { return raw(k, v ? "true" : "false"); }
    Rec &str(const char *k, const S &v) { return raw(k, "\"" + v + "\""); }
    operator S() const { return s + "}"; }
};
template<mp_size_t n> S jb(const bigint<n> &x) { return jz(zof(x)); }
template<class F> S je(const F &x) { return K<F>::js(x); }

template<class F> S prime_params(const char *name) {
    return Rec().str("k", "prime").str("f", name).i("n", F::num_limbs).raw("mod", jb(F::mod)).raw("char", jb(F::field_char())).i("bits", (long)F::num_bits)
        .i("ceil", (long)F::ceil_size_in_bits()).i("floor", (long)F::floor_size_in_bits()).i("deg", (long)F::extension_degree())
        .raw("euler", jb(F::euler)).i("s", (long)F::s).raw("t", jb(F::t)).raw("tm", jb(F::t_minus_1_over_2))
        .raw("nqr", je(F::nqr)).raw("nqrt", je(F::nqr_to_t)).raw("gen", je(F::multiplicative_generator)).raw("root", je(F::root_of_unity))
        .raw("inv", ju64(F::inv)).raw("r2", jb(F::Rsquared)).raw("r3", jb(F::Rcubed)).raw("zero", je(F::zero())).raw("one", je(F::one()))
        .raw("ag", je(F::arithmetic_generator())).raw("gg", je(F::geometric_generator())).b("valid", F::modulus_is_valid());
}
struct Coeffs {                       // lists of Frobenius coefficients: name, divisor, multiplier, values
    S s = "["; int n = 0;
    template<class A> Coeffs &add(int div, int mult, const A *v, int len) {
        if (n++) s += ",";
        s += Rec().i("div", div).i("mult", mult).raw("v", jlist(std::vector<A>(v, v + len), [](const A &x) { return je(x); }));
        return *this;
    }
    operator S() const { return s + "]"; }
};
template<class F> S ext_params(const char *name, const S &nr, const S &coeffs) {
    return Rec().str("k", "ext").str("f", name).raw("char", jb(F::field_char())).i("deg", (long)F::extension_degree())
        .i("ceil", (long)F::ceil_size_in_bits()).i("floor", (long)F::floor_size_in_bits())
        .raw("euler", jb(F::euler)).i("s", (long)F::s).raw("t", jb(F::t)).raw("tm", jb(F::t_minus_1_over_2))
        .raw("nqr", je(F::nqr)).raw("nqrt", je(F::nqr_to_t)).raw("nr", nr).raw("coeffs", coeffs).raw("zero", je(F::zero())).raw("one", je(F::one()));
}
#define C1(F, div, len) Coeffs().add(div, 1, F::Frobenius_coeffs_c1, len)
#define C12(F, div, len) Coeffs().add(div, 1, F::Frobenius_coeffs_c1, len).add(div, 2, F::Frobenius_coeffs_c2, len)
#define EXT2(F) ext_params<F>(#F, je(F::non_residue), C1(F, 2, 2))
#define EXT3(F) ext_params<F>(#F, je(F::non_residue), C12(F, 3, 3))
#define EXT4(F) ext_params<F>(#F, je(F::non_residue), C1(F, 4, 4))
#define EXT6_2(F) ext_params<F>(#F, je(F::non_residue), C1(F, 6, 6))
#define EXT6_3(F) ext_params<F>(#F, je(F::non_residue), C12(F, 3, 6))
#define EXT12(F) ext_params<F>(#F, je(F::non_residue), C1(F, 6, 12))
template<class F> S bin_params(const char *name) {
    return Rec().str("k", "bin").str("f", name).raw("mod", ju64(F::modulus_)).i("bits", (long)F::num_bits).i("deg", (long)F::extension_degree()).raw("char", jb(F::template field_char<1>()))
        .i("ceil", (long)F::ceil_size_in_bits()).i("floor", (long)F::floor_size_in_bits()).raw("gen", je(F::multiplicative_generator)).raw("zero", je(F::zero())).raw("one", je(F::one()));
}
inline S jtab(const std::vector<size_t> &v) { return jlist(v, [](size_t x) { return std::to_string(x); }); }
template<class G> Rec group_params(const char *name) {
    return Rec().str("k", "group").str("g", name).raw("one", js(G::one())).raw("zero", js(G::zero())).raw("order", jb(G::order())).raw("char", jb(G::field_char()))
        .b("wf", G::one().is_well_formed()).i("bits", (long)G::size_in_bits()).raw("wnaf", jtab(G::wnaf_window_table)).raw("fbe", jtab(G::fixed_base_exp_window_table));
}
// a multiplication by a curve coefficient, observed on an element
template<class F> S mulby(const char *g, const char *which, const F &x, const F &y) {
    return Rec().str("k", "mulby").str("g", g).str("which", which).raw("x", je(x)).raw("y", je(y));
}
typedef std::vector<S> Dump;
inline Dump fields_alt_bn128() { return {prime_params<alt_bn128_Fr>("alt_bn128_Fr"), prime_params<alt_bn128_Fq>("alt_bn128_Fq"), EXT2(alt_bn128_Fq2), EXT6_3(alt_bn128_Fq6), EXT12(alt_bn128_Fq12)}; }
inline Dump dump_alt_bn128(Rng &g) {
    Dump d = fields_alt_bn128();
    for (const S &x : Dump{
        group_params<alt_bn128_G1>("alt_bn128_G1").raw("h", jb(alt_bn128_G1::h)).raw("cb", je(alt_bn128_coeff_b)),
        group_params<alt_bn128_G2>("alt_bn128_G2").raw("h", jb(alt_bn128_G2::h)).raw("cb", je(alt_bn128_twist_coeff_b)),
        Rec().str("k", "curve").str("c", "alt_bn128").raw("loop", jb(alt_bn128_ate_loop_count)).b("loopneg", alt_bn128_ate_is_loop_count_neg).raw("z", jb(alt_bn128_final_exponent_z)).b("zneg", alt_bn128_final_exponent_is_z_neg)}) d.push_back(x);
    alt_bn128_Fq2 x = any<alt_bn128_Fq2>(g); d.push_back(mulby("alt_bn128_G2", "b", x, alt_bn128_G2::mul_by_b(x)));
    return d;
}
inline Dump fields_bls12_381() { return {prime_params<bls12_381_Fr>("bls12_381_Fr"), prime_params<bls12_381_Fq>("bls12_381_Fq"), EXT2(bls12_381_Fq2), EXT6_3(bls12_381_Fq6), EXT12(bls12_381_Fq12)}; }
inline Dump dump_bls12_381(Rng &g) {
    Dump d = fields_bls12_381();
    for (const S &x : Dump{
        group_params<bls12_381_G1>("bls12_381_G1").raw("h", jb(bls12_381_G1::h)).raw("cb", je(bls12_381_coeff_b)),
        group_params<bls12_381_G2>("bls12_381_G2").raw("h", jb(bls12_381_G2::h)).raw("cb", je(bls12_381_twist_coeff_b)),
        Rec().str("k", "curve").str("c", "bls12_381").raw("loop", jb(bls12_381_ate_loop_count)).b("loopneg", bls12_381_ate_is_loop_count_neg).raw("z", jb(bls12_381_final_exponent_z)).b("zneg", bls12_381_final_exponent_is_z_neg).raw("fe", jb(bls12_381_final_exponent))}) d.push_back(x);
    bls12_381_Fq2 x = any<bls12_381_Fq2>(g); d.push_back(mulby("bls12_381_G2", "b", x, bls12_381_G2::mul_by_b(x)));
    return d;
}
#define CHUNKS(c) .raw("w0", jb(c##_final_exponent_last_chunk_abs_of_w0)).b("w0neg", c##_final_exponent_last_chunk_is_w0_neg).raw("w1", jb(c##_final_exponent_last_chunk_w1))
inline Dump fields_edwards() { return {prime_params<edwards_Fr>("edwards_Fr"), prime_params<edwards_Fq>("edwards_Fq"), EXT3(edwards_Fq3), EXT6_2(edwards_Fq6)}; }
inline Dump dump_edwards(Rng &g) {
    Dump d = fields_edwards();
    for (const S &x : Dump{
        group_params<edwards_G1>("edwards_G1").raw("ca", je(edwards_coeff_a)).raw("cd", je(edwards_coeff_d)),
        group_params<edwards_G2>("edwards_G2").raw("ca", je(edwards_twist_coeff_a)).raw("cd", je(edwards_twist_coeff_d)),
        Rec().str("k", "curve").str("c", "edwards").raw("loop", jb(edwards_ate_loop_count)) CHUNKS(edwards)}) d.push_back(x);
    edwards_Fq3 x = any<edwards_Fq3>(g); d.push_back(mulby("edwards_G2", "a", x, edwards_G2::mul_by_a(x))); d.push_back(mulby("edwards_G2", "d", x, edwards_G2::mul_by_d(x)));
    return d;
}
inline Dump fields_mnt4() { return {prime_params<mnt4_Fr>("mnt4_Fr"), prime_params<mnt4_Fq>("mnt4_Fq"), EXT2(mnt4_Fq2), EXT4(mnt4_Fq4)}; }
inline Dump dump_mnt4(Rng &g) {
    Dump d = fields_mnt4();
    for (const S &x : Dump{
        group_params<mnt4_G1>("mnt4_G1").raw("h", jb(mnt4_G1::h)).raw("ca", je(mnt4_G1::coeff_a)).raw("cb", je(mnt4_G1::coeff_b)),
        group_params<mnt4_G2>("mnt4_G2").raw("h", jb(mnt4_G2::h)).raw("ca", je(mnt4_G2::coeff_a)).raw("cb", je(mnt4_G2::coeff_b)).raw("ca2", je(mnt4_twist_coeff_a)).raw("cb2", je(mnt4_twist_coeff_b)),
        Rec().str("k", "curve").str("c", "mnt4").raw("loop", jb(mnt4_ate_loop_count)).b("loopneg", mnt4_ate_is_loop_count_neg).raw("fe", jb(mnt4_final_exponent)) CHUNKS(mnt4)}) d.push_back(x);
    mnt4_Fq2 x = any<mnt4_Fq2>(g); d.push_back(mulby("mnt4_G2", "a", x, mnt4_G2::mul_by_a(x))); d.push_back(mulby("mnt4_G2", "b", x, mnt4_G2::mul_by_b(x)));
    return d;
}
inline Dump fields_mnt6() { return {prime_params<mnt6_Fr>("mnt6_Fr"), prime_params<mnt6_Fq>("mnt6_Fq"), EXT3(mnt6_Fq3), EXT6_2(mnt6_Fq6)}; }
inline Dump dump_mnt6(Rng &g) {
    Dump d = fields_mnt6();
    for (const S &x : Dump{
        group_params<mnt6_G1>("mnt6_G1").raw("h", jb(mnt6_G1::h)).raw("ca", je(mnt6_G1::coeff_a)).raw("cb", je(mnt6_G1::coeff_b)),
        group_params<mnt6_G2>("mnt6_G2").raw("h", jb(mnt6_G2::h)).raw("ca", je(mnt6_G2::coeff_a)).raw("cb", je(mnt6_G2::coeff_b)).raw("ca2", je(mnt6_twist_coeff_a)).raw("cb2", je(mnt6_twist_coeff_b)),
        Rec().str("k", "curve").str("c", "mnt6").raw("loop", jb(mnt6_ate_loop_count)).b("loopneg", mnt6_ate_is_loop_count_neg).raw("fe", jb(mnt6_final_exponent)) CHUNKS(mnt6)}) d.push_back(x);
    mnt6_Fq3 x = any<mnt6_Fq3>(g); d.push_back(mulby("mnt6_G2", "a", x, mnt6_G2::mul_by_a(x))); d.push_back(mulby("mnt6_G2", "b", x, mnt6_G2::mul_by_b(x)));
    return d;
}
inline Dump dump_binary() { return {bin_params<gf32>("gf32"), bin_params<gf64>("gf64"), bin_params<gf128>("gf128"), bin_params<gf192>("gf192"), bin_params<gf256>("gf256")}; }
} // namespace vt
