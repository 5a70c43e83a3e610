// Field properties: h_field TRACE MODE. Compiled in parts, one per family.
#ifndef PART
#define PART 0
#endif
#include "tiny.hpp"
#include "curves_fields.hpp"
using namespace vt;
typedef std::string S;

template<class F> void prime_modes(const char *name, int salt, const S &mode) {
    FieldId id{"field", S("\"") + name + "\"", salt, {}};
    if (mode == "forms") drive_forms<F>(id);
    if (mode == "inv") drive_inv<F>(id);
    if (mode == "sqrt") { drive_sqrt<F>(id); drive_sqrt_ts<F>(id); }
    if (mode == "frob") drive_frob<F>(id);
}
template<class F> void ext_modes(const char *name, int salt, const S &mode) {
    FieldId id{"field", S("\"") + name + "\"", salt, {}};
    prime_modes<F>(name, salt, mode);
    if (mode == "arith") { drive_arith<F>(id); drive_related<F>(id); }
}
template<class F> void cyc_modes(const char *name, int salt, const S &mode) {
    ext_modes<F>(name, salt, mode);
    FieldId id{"field", S("\"") + name + "\"", salt, {}};
    if (mode == "cyc") drive_cyc<F>(id);
}
#define P(T, s) TASK(prime_modes<libff::T>(#T, s, mode));
#define X(T, s) TASK(ext_modes<libff::T>(#T, s, mode));
#define C(T, s) TASK(cyc_modes<libff::T>(#T, s, mode));
#if PART == 1
void part1(const S &mode) { P(alt_bn128_Fr, 1) P(alt_bn128_Fq, 2) X(alt_bn128_Fq2, 3) X(alt_bn128_Fq6, 4) C(alt_bn128_Fq12, 5) }
#elif PART == 2
void part2(const S &mode) { P(bls12_381_Fr, 11) P(bls12_381_Fq, 12) X(bls12_381_Fq2, 13) X(bls12_381_Fq6, 14) C(bls12_381_Fq12, 15) }
#elif PART == 3
void part3(const S &mode) { P(edwards_Fr, 21) P(edwards_Fq, 22) X(edwards_Fq3, 23) C(edwards_Fq6, 24) }
#elif PART == 4
void part4(const S &mode) { P(mnt4_Fr, 31) P(mnt4_Fq, 32) X(mnt4_Fq2, 33) C(mnt4_Fq4, 34) P(mnt6_Fr, 41) P(mnt6_Fq, 42) X(mnt6_Fq3, 43) C(mnt6_Fq6, 44) }
#elif PART == 5
// binary fields
template<class F> void bin_modes(const char *name, int salt, const S &mode) {
    FieldId id{"field", S("\"") + name + "\"", salt, {}};
    if (mode == "forms") drive_forms<F>(id);
    if (mode == "inv") drive_inv<F>(id);
    if (mode == "sqrt") drive_sqrt<F>(id);
    if (mode == "bin") {
        drive_arith<F>(id); drive_related<F>(id); drive_inv<F>(id); drive_sqrt<F>(id);
        // structured bit patterns: single bits, runs, word boundaries, around the reduction polynomial
        Rng g(seed() * 982451653 + salt);
        const int n = (int)K<F>::limbs, bits_ = salt == 61 ? 32 : 64 * n;
        auto mono = [&](int i) { Z z = pow2(i); return K<F>::make(&z); };
        {
            FM<F> m(id.key, id.desc, 3, g);
            for (int i = 0; i < bits_; i++) {        // X^i * X^j on a diagonal band, squares and roots of every monomial
                m.load(1, mono(i)); m.sqr(3, 1); m.sqrt(2, 3); m.sqrt(2, 1);
                for (int j : {i, bits_ - 1 - i, bits_ - i, bits_ - 1, (i * 7 + 3) % bits_, (int)g.below(bits_)}) if (j >= 0 && j < bits_) { m.load(2, mono(j)); m.mul(3, 1, 2); }
                if (i % 4 == 0) m.inv(3, 1);
            }
            m.dump();
        }
        for (int t = 0; t < N(60, 1500); t++) {
            FM<F> m(id.key, id.desc, 3, g);
            Z a = limb_pattern(g, n) % pow2(bits_), b = limb_pattern(g, n) % pow2(bits_);
            if (g.chance(1, 3)) a = pow2(bits_) - Z(1) - Z((int)g.below(3)); if (g.chance(1, 4)) b = pow2(g.below(bits_) + 1) - Z(1);
            m.loadz(1, a); m.loadz(2, b); m.mul(3, 1, 2); m.imul(2, 1); m.eq(2, 3); m.sqr(3, 1); m.isqr(1); m.add(2, 3, 2); m.isub(2, 3); m.neg(3, 2); m.eq(2, 3);
            m.mul(3, 3, 3); m.inv(2, 1); m.sqrt(3, 1); m.powul(2, 1, g.next()); m.mul(2, 2, 3); m.dump();
        }
        { FM<F> m(id.key, id.desc, 2, g); m.load(1, F::multiplicative_generator); m.sqr(2, 1); m.inv(2, 1); m.sqrt(2, 1); }
    }
}
void part5(const S &mode) {
#define B(T, s) TASK(bin_modes<libff::T>(#T, s, mode));
    B(gf32, 61) B(gf64, 62) B(gf128, 63) B(gf192, 64) B(gf256, 65)
}
#elif PART == 6
libff::bigint<1> tiny_p;
template<class F> void tiny_modes(const FieldId &id, const S &mode) {
    Rng g(seed() * 1299709 + id.salt);
    if (mode == "arith" || mode == "forms" || mode == "inv" || mode == "sqrt" || mode == "frob") enumerate<F>(id, mode, g);
    if (mode == "forms") drive_forms<F>(id);
    if (mode == "arith" && K<F>::deg > 1) { drive_arith<F>(id); drive_related<F>(id); }
}
void part6(const S &mode) {
    init_tiny();
    tiny_modes<T1>(id1(), mode); tiny_modes<T2>(id2(), mode); tiny_modes<T3>(id3(), mode); tiny_modes<T4>(id4(), mode);
    tiny_modes<T6a>(id6a(), mode); tiny_modes<T6b>(id6b(), mode); tiny_modes<T12>(id12(), mode);
    if (mode == "cyc") { Rng g(seed() * 7 + 99); enumerate_cyc<T4>(id4(), g); enumerate_cyc<T6a>(id6a(), g); enumerate_cyc<T12>(id12(), g); }
}
#else
void part1(const S &); void part2(const S &); void part3(const S &); void part4(const S &); void part5(const S &); void part6(const S &);
int main(int, char **argv) {
    open_trace(argv[1]);
    init_all_fields();
    S mode = argv[2];
    if (mode != "bin") { part1(mode); part2(mode); part3(mode); part4(mode); }
    if (mode != "arith" && mode != "frob" && mode != "cyc") part5(mode);
    if (mode != "bin") part6(mode);
    close_trace();
}
#endif
