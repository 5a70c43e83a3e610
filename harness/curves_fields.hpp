// The shipped prime-field families.
#pragma once
#include <libff/algebra/curves/alt_bn128/alt_bn128_fields.hpp>
#include <libff/algebra/curves/bls12_381/bls12_381_fields.hpp>
#include <libff/algebra/curves/edwards/edwards_fields.hpp>
#include <libff/algebra/curves/mnt/mnt4/mnt4_fields.hpp>
#include <libff/algebra/curves/mnt/mnt6/mnt6_fields.hpp>
inline void init_all_fields() {
    libff::init_alt_bn128_fields(); libff::init_bls12_381_fields(); libff::init_edwards_fields();
    libff::init_mnt4_fields(); libff::init_mnt6_fields();
}
#define PRIME_FIELDS(X) X(alt_bn128_Fr) X(alt_bn128_Fq) X(bls12_381_Fr) X(bls12_381_Fq) X(edwards_Fr) X(edwards_Fq) X(mnt4_Fr) X(mnt4_Fq) X(mnt6_Fr) X(mnt6_Fq)
#define EXT_FIELDS(X) X(alt_bn128_Fq2) X(alt_bn128_Fq6) X(alt_bn128_Fq12) X(bls12_381_Fq2) X(bls12_381_Fq6) X(bls12_381_Fq12) \
    X(edwards_Fq3) X(edwards_Fq6) X(mnt4_Fq2) X(mnt4_Fq4) X(mnt6_Fq3) X(mnt6_Fq6)
#define BIN_FIELDS(X) X(gf32) X(gf64) X(gf128) X(gf192) X(gf256)
