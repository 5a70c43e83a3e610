// Reading and building field elements through the public API.
#pragma once
#include "vt.hpp"
#include <libff/algebra/field_utils/bigint.hpp>
#include <libff/algebra/fields/prime_base/fp.hpp>
#include <libff/algebra/fields/prime_extension/fp2.hpp>
#include <libff/algebra/fields/prime_extension/fp3.hpp>
#include <libff/algebra/fields/prime_extension/fp4.hpp>
#include <libff/algebra/fields/prime_extension/fp6_2over3.hpp>
#include <libff/algebra/fields/prime_extension/fp6_3over2.hpp>
#include <libff/algebra/fields/prime_extension/fp12_2over3over2.hpp>
#include <libff/algebra/fields/binary/gf32.hpp>
#include <libff/algebra/fields/binary/gf64.hpp>
#include <libff/algebra/fields/binary/gf128.hpp>
#include <libff/algebra/fields/binary/gf192.hpp>
#include <libff/algebra/fields/binary/gf256.hpp>

namespace vt {
using namespace libff;

template<mp_size_t n> Z zof(const bigint<n> &b) { return from_limbs(reinterpret_cast<const uint64_t *>(b.data), n); }
template<mp_size_t n> bigint<n> bof(const Z &z) { bigint<n> b; to_limbs(z, reinterpret_cast<uint64_t *>(b.data), n); return b; }

// K<F>: name-independent access to a field type F.
//   js(x)     JSON of the element (number, or list of coefficients)
//   flat(x)   prime-field coefficients
//   make(zs)  element from deg() numbers (reduced)
template<class F> struct K;

template<mp_size_t n, const bigint<n> &m> struct K<Fp_model<n, m>> {
    typedef Fp_model<n, m> F;
    static const int deg = 1;
    static const mp_size_t limbs = n;
    static Z p() { return zof(m); }
    static std::string js(const F &x) { return jz(zof(x.as_bigint())); }
    static F make(const Z *c) { return F(bof<n>(c[0] % p())); }
    // equality with a freshly built element: detects non-canonical representations
    static bool canon(const F &x) { return x == F(x.as_bigint()); }
};
template<class F, class B, int D> struct KExt {
    static const int deg = D * K<B>::deg;
    static const mp_size_t limbs = K<B>::limbs;
    static Z p() { return K<B>::p(); }
};
template<mp_size_t n, const bigint<n> &m> struct K<Fp2_model<n, m>> : KExt<Fp2_model<n, m>, Fp_model<n, m>, 2> {
    typedef Fp2_model<n, m> F; typedef Fp_model<n, m> B;
    static std::string js(const F &x) { return "[" + K<B>::js(x.c0) + "," + K<B>::js(x.c1) + "]"; }
    static F make(const Z *c) { return F(K<B>::make(c), K<B>::make(c + 1)); }
    static bool canon(const F &x) { return K<B>::canon(x.c0) && K<B>::canon(x.c1); }
};
template<mp_size_t n, const bigint<n> &m> struct K<Fp3_model<n, m>> : KExt<Fp3_model<n, m>, Fp_model<n, m>, 3> {
    typedef Fp3_model<n, m> F; typedef Fp_model<n, m> B;
    static std::string js(const F &x) { return "[" + K<B>::js(x.c0) + "," + K<B>::js(x.c1) + "," + K<B>::js(x.c2) + "]"; }
    static F make(const Z *c) { return F(K<B>::make(c), K<B>::make(c + 1), K<B>::make(c + 2)); }
    static bool canon(const F &x) { return K<B>::canon(x.c0) && K<B>::canon(x.c1) && K<B>::canon(x.c2); }
};
template<class F, class B> struct KTwo : KExt<F, B, 2> {
    static std::string js(const F &x) { return "[" + K<B>::js(x.c0) + "," + K<B>::js(x.c1) + "]"; }
    static F make(const Z *c) { return F(K<B>::make(c), K<B>::make(c + K<B>::deg)); }
    static bool canon(const F &x) { return K<B>::canon(x.c0) && K<B>::canon(x.c1); }
};
template<mp_size_t n, const bigint<n> &m> struct K<Fp4_model<n, m>> : KTwo<Fp4_model<n, m>, Fp2_model<n, m>> {};
template<mp_size_t n, const bigint<n> &m> struct K<Fp6_2over3_model<n, m>> : KTwo<Fp6_2over3_model<n, m>, Fp3_model<n, m>> {};
template<mp_size_t n, const bigint<n> &m> struct K<Fp12_2over3over2_model<n, m>> : KTwo<Fp12_2over3over2_model<n, m>, Fp6_3over2_model<n, m>> {};
template<mp_size_t n, const bigint<n> &m> struct K<Fp6_3over2_model<n, m>> : KExt<Fp6_3over2_model<n, m>, Fp2_model<n, m>, 3> {
    typedef Fp6_3over2_model<n, m> F; typedef Fp2_model<n, m> B;
    static std::string js(const F &x) { return "[" + K<B>::js(x.c0) + "," + K<B>::js(x.c1) + "," + K<B>::js(x.c2) + "]"; }
    static F make(const Z *c) { return F(K<B>::make(c), K<B>::make(c + 2), K<B>::make(c + 4)); }
    static bool canon(const F &x) { return K<B>::canon(x.c0) && K<B>::canon(x.c1) && K<B>::canon(x.c2); }
};
// binary fields
template<class F, int BITS> struct KBin {
    static const int deg = 1;
    static const mp_size_t limbs = (BITS + 63) / 64;
    static Z p() { return pow2(BITS); }
    static Z num(const F &x) { auto w = x.to_words(); return from_limbs(w.data(), w.size()); }
    static std::string js(const F &x) { return jz(num(x)); }
    static bool canon(const F &x) { return bits(num(x)) <= BITS; }
};
template<> struct K<gf32> : KBin<gf32, 32> { static gf32 make(const Z *c) { uint64_t w[1]; to_limbs(c[0] % p(), w, 1); return gf32((uint32_t)w[0]); } };
template<> struct K<gf64> : KBin<gf64, 64> { static gf64 make(const Z *c) { uint64_t w[1]; to_limbs(c[0] % p(), w, 1); return gf64(w[0]); } };
template<> struct K<gf128> : KBin<gf128, 128> { static gf128 make(const Z *c) { uint64_t w[2]; to_limbs(c[0] % p(), w, 2); return gf128(w[1], w[0]); } };
template<> struct K<gf192> : KBin<gf192, 192> { static gf192 make(const Z *c) { uint64_t w[3]; to_limbs(c[0] % p(), w, 3); return gf192(w[2], w[1], w[0]); } };
template<> struct K<gf256> : KBin<gf256, 256> { static gf256 make(const Z *c) { uint64_t w[4]; to_limbs(c[0] % p(), w, 4); return gf256(w[3], w[2], w[1], w[0]); } };

// ------------------------------------------------- directed prime-field values
// Values that sit on carry / reduction boundaries, both as residues and as
// residues times R = 2^(64 limbs) (the internal form of the implementation).
inline Z limb_pattern(Rng &g, int n) {
    Z r;
    for (int i = n - 1; i >= 0; i--) {
        mpz_mul_2exp(r.v, r.v, 64);
        unsigned long w;
        switch (g.below(6)) { case 0: w = 0; break; case 1: w = ~0ul; break; case 2: w = 1; break;
            case 3: w = ~0ul - 1; break; case 4: w = 1ul << 63; break; default: w = g.next(); }
        Z t(w); mpz_add(r.v, r.v, t.v);
    }
    return r;
}
inline Z special(Rng &g, const Z &p, int n) {
    int pb = (int)bits(p);
    switch (g.below(8)) {
    case 0: return Z((int)g.below(4)) % p;
    case 1: return (p - Z(1) - Z((int)g.below(4))) % p;
    case 2: return ((p + Z(1)) / Z(2) + Z((int)g.below(3)) - Z(1)) % p;
    case 3: { Z r = pow2(64 * g.below(n)); return (r + Z((int)g.below(3)) - Z(1)) % p; }
    case 4: { Z r = pow2(g.below(pb)); return (r + Z((int)g.below(3)) - Z(1)) % p; }
    case 5: return limb_pattern(g, n) % p;
    case 6: { Z r = limb_pattern(g, n) % p; return (p - r) % p; }
    default: return zrand(g, p);
    }
}
// words that are related: equal, opposite, complementary, mostly zero
inline std::vector<uint64_t> related_words(Rng &g, int n, uint64_t *shared = nullptr) {
    const uint64_t x = g.chance(1, 4) ? 1 + g.below(16) : g.chance(1, 4) ? 1ull << 63 : g.chance(1, 3) ? 1ull << g.below(64) : g.next();
    if (shared) *shared = x;
    std::vector<uint64_t> w(n, 0);
    const int style = (int)g.below(5);
    if (style == 4) { for (int i = 0; i < 2; i++) { int at = (int)g.below(n); w[at] = g.chance(1, 2) ? x : g.next(); } if (g.chance(1, 2)) w[n - 1] |= 1ull << 63; return w; }
    for (auto &y : w) switch (style == 0 ? g.below(3) : style == 1 ? g.below(6) : style == 2 ? g.below(9) : 8) {
        case 0: y = 0; break; case 1: y = x; break; case 2: y = 0 - x; break; case 3: y = ~x; break; case 4: y = ~0ull; break; case 5: y = 1ull << 63; break; case 6: y = 1; break; case 7: y = x << 32; break; default: y = g.next(); }
    return w;
}
// the residue whose internal form is (special value): v / R mod p
inline Z special_mont(Rng &g, const Z &p, int n) { return special(g, p, n) * inv(pow2(64 * n) % p, p) % p; }
inline Z pick(Rng &g, const Z &p, int n) {
    switch (g.below(4)) { case 0: return special(g, p, n); case 1: if (mpz_odd_p(p.v)) return special_mont(g, p, n); /* fallthrough */ default: return zrand(g, p); }
}
template<class F> F any(Rng &g) {
    Z c[12]; Z p = K<F>::p();
    int mode = (int)g.below(6);
    for (int i = 0; i < K<F>::deg; i++)
        c[i] = mode == 0 ? zrand(g, p) : mode == 1 ? (g.chance(1, 2) ? Z(0) : zrand(g, p)) : mode == 2 ? special(g, p, K<F>::limbs)
             : mode == 3 ? (g.chance(1, 3) ? Z(1) : g.chance(1, 2) ? Z(0) : p - Z(1)) : mode == 4 ? (g.chance(2, 3) ? Z(0) : pick(g, p, K<F>::limbs)) : pick(g, p, K<F>::limbs);
    return K<F>::make(c);
}
template<class F> F any_nonzero(Rng &g) { for (;;) { F x = any<F>(g); if (!x.is_zero()) return x; } }
} // namespace vt
