// Drivers for the field properties, one per mode, over any field type.
#pragma once
#include "fieldmachine.hpp"

namespace vt {
struct FieldId { std::string key, desc; int salt; std::vector<std::pair<int, std::string>> subs; };  // key "field" + quoted name, or "F" + inline descriptor

// ------------------------------------------------------------ field features
template<class F> struct Feat {                // prime fields
    static const bool ext = false, bin = false, sqrt = true;
    template<class M> static void sqr_variants(M &, int, int) {}
    template<class M> static void scales(M &, int, int, const FieldId &) {}
    template<class M> static void mulnr(M &) {}
};
template<class S, class M> void do_scale(M &m, int d, int a, const S &s, const std::string &skey, const std::string &sdesc) {
    std::string js = K<S>::js(s);              // s may be part of the destination
    m.r[d] = s * m.r[a];
    Ev e("scale"); e.raw(skey.c_str(), sdesc).raw("s", js); m.fin(e, d, a);
}
// names of subfields: family name for shipped towers, inline descriptors for tiny ones
struct Sub { std::string key, desc; };
inline Sub subof(const FieldId &id, int degree);

template<mp_size_t n, const bigint<n> &m> struct Feat<Fp2_model<n, m>> {
    typedef Fp2_model<n, m> F; typedef Fp_model<n, m> P;
    static const bool ext = true, bin = false, sqrt = true;
    static void sqr_variants(FM<F> &x, int d, int a) { x.r[d] = x.r[a].squared_karatsuba(); x.res("sqr", d, a); x.r[d] = x.r[a].squared_complex(); x.res("sqr", d, a); }
    static void scales(FM<F> &x, int d, int a, const FieldId &id) {
        Sub s = subof(id, 1); do_scale(x, d, a, any<P>(x.g), s.key, s.desc); do_scale(x, d, a, x.r[a].c1, s.key, s.desc);
    }
    static void mulnr(FM<F> &) {}
};
template<mp_size_t n, const bigint<n> &m> struct Feat<Fp3_model<n, m>> {
    typedef Fp3_model<n, m> F; typedef Fp_model<n, m> P;
    static const bool ext = true, bin = false, sqrt = true;
    static void sqr_variants(FM<F> &, int, int) {}
    static void scales(FM<F> &x, int d, int a, const FieldId &id) {
        Sub s = subof(id, 1); do_scale(x, d, a, any<P>(x.g), s.key, s.desc); do_scale(x, d, a, x.r[a].c2, s.key, s.desc);
    }
    static void mulnr(FM<F> &) {}
};
template<class F, class B> void do_mulnr(FM<F> &x, const B &b) {
    B v = F::mul_by_non_residue(b); Ev e("mulnr"); e.raw("x", K<B>::js(b)).raw("v", K<B>::js(v)).b("c", K<B>::canon(v));
}
template<mp_size_t n, const bigint<n> &m> struct Feat<Fp4_model<n, m>> {
    typedef Fp4_model<n, m> F; typedef Fp_model<n, m> P; typedef Fp2_model<n, m> B;
    static const bool ext = true, bin = false, sqrt = true;
    static void sqr_variants(FM<F> &, int, int) {}
    static void scales(FM<F> &x, int d, int a, const FieldId &id) {
        Sub s = subof(id, 1), t = subof(id, 2);
        do_scale(x, d, a, any<P>(x.g), s.key, s.desc); do_scale(x, d, a, x.r[a].c0.c1, s.key, s.desc);
        do_scale(x, d, a, any<B>(x.g), t.key, t.desc); do_scale(x, d, a, x.r[a].c1, t.key, t.desc);
    }
    static void mulnr(FM<F> &x) { do_mulnr<F, B>(x, any<B>(x.g)); }
};
template<mp_size_t n, const bigint<n> &m> struct Feat<Fp6_2over3_model<n, m>> {
    typedef Fp6_2over3_model<n, m> F; typedef Fp_model<n, m> P; typedef Fp3_model<n, m> B;
    static const bool ext = true, bin = false, sqrt = true;
    static void sqr_variants(FM<F> &, int, int) {}
    static void scales(FM<F> &x, int d, int a, const FieldId &id) {
        Sub s = subof(id, 1);
        do_scale(x, d, a, any<P>(x.g), s.key, s.desc); do_scale(x, d, a, x.r[a].c1.c2, s.key, s.desc);
    }
    static void mulnr(FM<F> &x) { do_mulnr<F, B>(x, any<B>(x.g)); }
};
template<mp_size_t n, const bigint<n> &m> struct Feat<Fp6_3over2_model<n, m>> {
    typedef Fp6_3over2_model<n, m> F; typedef Fp_model<n, m> P; typedef Fp2_model<n, m> B;
    static const bool ext = true, bin = false, sqrt = true;
    static void sqr_variants(FM<F> &, int, int) {}
    static void scales(FM<F> &x, int d, int a, const FieldId &id) {
        Sub s = subof(id, 1), t = subof(id, 2);
        do_scale(x, d, a, any<P>(x.g), s.key, s.desc); do_scale(x, d, a, x.r[a].c1.c1, s.key, s.desc);
        do_scale(x, d, a, any<B>(x.g), t.key, t.desc); do_scale(x, d, a, x.r[a].c2, t.key, t.desc);
    }
    static void mulnr(FM<F> &x) { do_mulnr<F, B>(x, any<B>(x.g)); }
};
template<mp_size_t n, const bigint<n> &m> struct Feat<Fp12_2over3over2_model<n, m>> {
    typedef Fp12_2over3over2_model<n, m> F; typedef Fp_model<n, m> P; typedef Fp2_model<n, m> Q; typedef Fp6_3over2_model<n, m> B;
    static const bool ext = true, bin = false, sqrt = true;
    static void sqr_variants(FM<F> &x, int d, int a) { x.r[d] = x.r[a].squared_karatsuba(); x.res("sqr", d, a); x.r[d] = x.r[a].squared_complex(); x.res("sqr", d, a); }
    static void scales(FM<F> &x, int d, int a, const FieldId &id) {
        Sub s = subof(id, 1), t = subof(id, 2), u = subof(id, 6);
        do_scale(x, d, a, any<P>(x.g), s.key, s.desc); do_scale(x, d, a, x.r[a].c0.c0.c1, s.key, s.desc);
        do_scale(x, d, a, any<Q>(x.g), t.key, t.desc); do_scale(x, d, a, x.r[a].c1.c2, t.key, t.desc);
        do_scale(x, d, a, any<B>(x.g), u.key, u.desc); do_scale(x, d, a, x.r[a].c1, u.key, u.desc);
    }
    static void mulnr(FM<F> &x) { do_mulnr<F, B>(x, any<B>(x.g)); }
};
template<> struct Feat<gf32> { static const bool ext = false, bin = true, sqrt = true; template<class M> static void sqr_variants(M &, int, int) {} template<class M> static void scales(M &, int, int, const FieldId &) {} template<class M> static void mulnr(M &) {} };
template<> struct Feat<gf64> : Feat<gf32> {};
template<> struct Feat<gf128> : Feat<gf32> {};
template<> struct Feat<gf192> : Feat<gf32> {};
template<> struct Feat<gf256> : Feat<gf32> {};

inline Sub subof(const FieldId &id, int degree) {
    if (id.key == "field") {
        std::string nm = id.desc.substr(1, id.desc.size() - 2); // strip quotes
        std::string fam = nm.substr(0, nm.rfind("_Fq"));
        return {"S", "\"" + fam + "_Fq" + (degree == 1 ? "" : std::to_string(degree)) + "\""};
    }
    for (auto &x : id.subs) if (x.first == degree) return {"SF", x.second};
    return {"SF", "0"};
}

// ------------------------------------------------------------------- drivers
template<class F> void drive_forms(const FieldId &id) {
    Rng g(seed() * 7919 + id.salt);
    const int heavy = K<F>::deg * (int)K<F>::limbs > 20;
    // every operation in every aliasing pattern of three registers
    for (int op = 0; op < 13; op++) {
        FM<F> m(id.key, id.desc, 3, g);
        for (int d = 1; d <= 3; d++) for (int a = 1; a <= 3; a++) for (int b = 1; b <= 3; b++) {
            if (op >= 3 && b > 1) continue;              // unary and in-place forms have no third register
            if ((op == 6 || op == 7) && a > 1) continue; // in-place unary
            for (int i = 1; i <= 3; i++) m.load(i, any_nonzero<F>(g));
            switch (op) {
            case 0: m.add(d, a, b); break; case 1: m.sub(d, a, b); break; case 2: m.mul(d, a, b); break;
            case 3: m.iadd(d, a); break; case 4: m.isub(d, a); break; case 5: m.imul(d, a); break;
            case 6: m.isqr(d); break; case 7: m.iinv(d); break;
            case 8: m.neg(d, a); break; case 9: m.sqr(d, a); break; case 10: m.copy(d, a); break; case 11: m.inv(d, a); break;
            case 12: { unsigned long e = g.below(9); m.powul(d, a, e); if (d == a) { m.load(d, any<F>(g)); m.ipowul(d, e); m.ipow(a, bigint<1>(g.below(5))); } } break;
            }
            m.dump();
        }
    }
    // compound statements: results used as operands of further in-place operations
    {
        FM<F> m(id.key, id.desc, 4, g);
        for (int t = 0; t < N(8, 60); t++) {
            for (int i = 1; i <= 4; i++) m.load(i, any<F>(g));
            int d = m.R(), a = m.R(), b = m.R();
            if (d != a && d != b && a != b) {
                auto &R = m.r;
                F s0 = R[d], s1 = R[a], s2 = R[b];
                (R[d] += R[a]) -= R[b]; Ev("chain").str("k", "addsub").i("d", d).i("a", a).i("b", b).raw("v", K<F>::js(R[d]));
                (R[d] *= R[a]) += R[b]; Ev("chain").str("k", "muladd").i("d", d).i("a", a).i("b", b).raw("v", K<F>::js(R[d]));
                R[d] = R[a] * R[b] + R[d]; Ev("chain").str("k", "mulplus").i("d", d).i("a", a).i("b", b).raw("v", K<F>::js(R[d]));
                (R[d] -= R[d]) += R[a]; Ev("chain").str("k", "selfsub").i("d", d).i("a", a).i("b", b).raw("v", K<F>::js(R[d]));
                (R[d] *= R[d]) *= R[d]; Ev("chain").str("k", "cube").i("d", d).i("a", a).i("b", b).raw("v", K<F>::js(R[d]));
                R[d].square() += R[d]; Ev("chain").str("k", "sqrdbl").i("d", d).i("a", a).i("b", b).raw("v", K<F>::js(R[d]));
            }
            m.dump();
        }
    }
    // long random histories
    for (int t = 0; t < N(heavy ? 2 : 3, 20); t++) {
        FM<F> m(id.key, id.desc, 4, g);
        for (int i = 1; i <= 4; i++) m.load(i, any<F>(g));
        for (int u = 0; u < 40; u++) {
            int d = m.R(), a = m.R(), b = m.R();
            switch (g.below(18)) {
            case 0: m.add(d, a, b); break; case 1: m.sub(d, a, b); break; case 2: m.mul(d, a, b); break;
            case 3: m.iadd(d, b); break; case 4: m.isub(d, b); break; case 5: m.imul(d, b); break;
            case 6: m.neg(d, a); break; case 7: m.sqr(d, a); break; case 8: m.isqr(d); break;
            case 9: m.load(d, any<F>(g)); break; case 10: m.eq(a, b); m.iszero(a); break; case 11: m.copy(d, a); break;
            case 12: m.inv(d, a); break; case 13: m.iinv(d); break;
            case 14: m.zero(d); break; case 15: m.one(d); break;
            case 16: m.powul(d, a, g.below(20)); break; case 17: m.ipowul(d, g.below(20)); break;
            }
            if (u % 4 == 3) m.dump();
        }
        m.dump();
    }
}

template<class F> void drive_arith(const FieldId &id) {
    Rng g(seed() * 104729 + id.salt);
    for (int t = 0; t < N(14, 200); t++) {
        FM<F> m(id.key, id.desc, 3, g);
        m.load(1, any<F>(g)); m.load(2, any<F>(g));
        m.mul(3, 1, 2); m.mul(3, 2, 1); m.add(3, 1, 2); m.sub(3, 1, 2); m.sub(3, 2, 1); m.neg(3, 1); m.iszero(3); m.add(3, 3, 1); m.iszero(3);
        m.sqr(3, 1); Feat<F>::sqr_variants(m, 3, 1); m.sqr(3, 2); Feat<F>::sqr_variants(m, 3, 2); m.mul(3, 1, 1);
        Feat<F>::scales(m, 3, 1, id); Feat<F>::scales(m, 2, 2, id); Feat<F>::mulnr(m); Feat<F>::mulnr(m);
        m.imul(1, 2); m.isqr(2); m.eq(1, 2);
        m.copy(3, 1); m.eq(1, 3); m.dump();
    }
    // constants, and each coefficient on its own
    FM<F> m(id.key, id.desc, 3, g);
    m.zero(1); m.one(2); m.iszero(1); m.iszero(2); m.eq(1, 2); m.mul(3, 1, 2); m.mul(3, 2, 2); m.sqr(3, 1); m.neg(3, 1); m.iszero(3);
    Z c[12], p = K<F>::p();
    for (int i = 0; i < K<F>::deg; i++) for (int j = 0; j < K<F>::deg; j++) {
        for (auto &x : c) x = Z(0);
        c[i] = g.chance(1, 2) ? Z(1) : p - Z(1); m.load(1, K<F>::make(c)); m.iszero(1);
        c[i] = Z(0); c[j] = pick(g, p, K<F>::limbs); m.load(2, K<F>::make(c));
        m.mul(3, 1, 2); m.eq(1, 2); if (i == j) { m.sqr(3, 2); Feat<F>::sqr_variants(m, 3, 2); Feat<F>::scales(m, 3, 2, id); }
    }
    m.dump();
}

// Pairs of elements whose internal words are related: words that cancel under
// addition or xor, swapped, shifted and single-bit differences.
template<class F> void drive_related(const FieldId &id) {
    Rng g(seed() * 6364136223846793005ull + id.salt);
    const int n = (int)K<F>::limbs, deg = K<F>::deg; const Z p = K<F>::p(); const bool mont = mpz_odd_p(p.v);
    const Z Ri = mont ? inv(pow2(64 * n) % p, p) : Z(1);
    auto value = [&](const std::vector<uint64_t> &w) { Z c[12];
        for (int i = 0; i < deg; i++) c[i] = (from_limbs(&w[i * n], n) % p) * Ri % p;
        return K<F>::make(c); };
    FM<F> m(id.key, id.desc, 3, g);
    for (int t = 0; t < N(40, 400); t++) {
        uint64_t x; std::vector<uint64_t> w = related_words(g, n * deg, &x), v;
        v = w; const int i = (int)g.below(w.size()), j = (int)g.below(w.size());
        switch (g.below(8)) {
        case 0: v[i] ^= 1ull << g.below(64); break;
        case 1: std::swap(v[i], v[j]); break;
        case 2: v[i] ^= x; v[j] ^= x; break;
        case 3: v[i] += x; v[j] -= x; break;
        case 4: std::rotate(v.begin(), v.begin() + (g.chance(1, 2) ? n : 1) % (int)v.size(), v.end()); break;
        case 5: for (int k = 0; k < n; k++) { v[(i % deg) * n + k] = 0; } break;
        case 6: v[i] = ~v[i]; break;
        default: break;
        }
        m.load(1, value(w)); m.load(2, value(v)); m.iszero(1); m.iszero(2); m.eq(1, 2); m.eq(2, 1);
        m.sub(3, 1, 2); m.iszero(3); m.neg(3, 1); m.eq(3, 2); m.add(3, 1, 2); m.iszero(3);
        if (t % 4 == 0) { m.mul(3, 1, 2); m.sqr(3, 1); m.inv(3, 1); }
    }
    m.dump();
}

inline void set_words(std::vector<unsigned long long> &v, Rng &g) { for (auto &x : v) x = g.chance(1, 3) ? 0 : g.chance(1, 2) ? ~0ull : g.next(); }
template<class F, mp_size_t n> void pow_n(FM<F> &m, Rng &g, int d, int a) {
    bigint<n> e;
    switch (g.below(6)) {
    case 0: e = bof<n>(limb_pattern(g, n)); break;
    case 1: e = bof<n>(pow2(g.below(64 * n))); break;
    case 2: { Z t = pow2(64 * g.below(n) + (n ? g.below(64) : 0)); e = bof<n>(t - Z(1)); } break;
    case 3: e = bof<n>(Z((int)g.below(4))); break;
    case 4: e = bof<n>(pow2(64 * n) - Z(1) - Z((int)g.below(3))); break;
    default: e = bof<n>(zrand(g, pow2(64 * n))); break;
    }
    if (g.chance(1, 2)) m.pow(d, a, e); else { m.copy(d, a); m.ipow(d, e); }
}
template<class F> void drive_inv(const FieldId &id) {
    Rng g(seed() * 15485863 + id.salt);
    Z c[12], p = K<F>::p();
    {   // inverses: constants, single coefficients, sparse, random
        FM<F> m(id.key, id.desc, 3, g);
        m.one(1); m.inv(2, 1); m.neg(1, 1); m.inv(2, 1); m.iinv(1); m.eq(1, 2);
        for (int i = 0; i < K<F>::deg; i++) for (int t = 0; t < 3; t++) {
            for (auto &x : c) x = Z(0);
            c[i] = t == 0 ? Z(1) : t == 1 ? Feat<F>::bin ? Z(3) : p - Z(1) : pick(g, p, K<F>::limbs);
            m.load(1, K<F>::make(c)); m.inv(2, 1); m.mul(3, 1, 2); m.iinv(1); m.eq(1, 2);
        }
        for (int t = 0; t < N(40, 600); t++) { m.load(1, any_nonzero<F>(g)); m.inv(2, 1); m.mul(3, 1, 2); m.iinv(1); m.eq(1, 2); }
        m.dump();
    }
    const int scale = K<F>::deg >= 6 ? 1 : 2;
    for (int t = 0; t < N(4 * scale, 40 * scale); t++) {
        FM<F> m(id.key, id.desc, 3, g);
        m.load(1, any<F>(g));
        for (unsigned long e : {0ul, 1ul, 2ul, 3ul, 4ul, 5ul, 7ul, 8ul, 15ul, 1ul << 31, 1ul << 32, (1ul << 32) + 1, ~0ul, 1ul << 63, g.next()}) {
            if (t && g.chance(2, 3)) continue;
            m.powul(2, 1, e); m.copy(3, 1); m.ipowul(3, e); m.eq(2, 3);
            m.r[3] = power<F>(m.r[1], (unsigned long long)e); { Ev x("pow"); x.raw("e", ju64(e)); m.fin(x, 3, 1); }
        }
        m.pow(2, 1, bigint<1>(0ul)); m.pow(2, 1, bigint<3>(0ul)); m.pow(2, 1, bigint<2>(1ul));
        pow_n<F, 1>(m, g, 2, 1); pow_n<F, 2>(m, g, 3, 1); pow_n<F, 3>(m, g, 2, 1); pow_n<F, 4>(m, g, 2, 1); pow_n<F, 5>(m, g, 3, 1); pow_n<F, 6>(m, g, 3, 1);
        pow_n<F, 1>(m, g, 1, 1); pow_n<F, 2>(m, g, 1, 1);
        // most significant word first
        std::vector<unsigned long long> v(g.below(5)); set_words(v, g);
        m.r[3] = power<F>(m.r[1], v);
        Z e; for (auto x : v) { mpz_mul_2exp(e.v, e.v, 64); Z w((unsigned long)x); mpz_add(e.v, e.v, w.v); }
        { Ev x("pow"); x.raw("e", jz(e)); m.fin(x, 3, 1); }
        m.zero(1); m.powul(2, 1, 0); m.powul(2, 1, 1 + g.below(5)); pow_n<F, 2>(m, g, 3, 1); m.one(1); pow_n<F, 4>(m, g, 3, 1);
        m.dump();
    }
    // elements at which exponents collapse, with exponents at and around multiples of what they collapse by
    for (int k = 0; k < 5; k++) {
        FM<F> m(id.key, id.desc, 3, g);
        if (k == 0) m.zero(1); else if (k == 1) m.one(1); else if (k == 2) { m.one(1); m.neg(1, 1); } else if (k == 3) { Z c[12]; c[0] = zrand(g, K<F>::p()); m.load(1, K<F>::make(c)); } else m.load(1, any<F>(g));
        const Z size = zpow(K<F>::p(), k == 3 || K<F>::deg > 6 ? 1 : K<F>::deg);
        for (unsigned long e : {0ul, 1ul, 2ul, 3ul, 255ul, 256ul, 65535ul, 65536ul, 0xfffffffful, 0x100000000ul, ~0ul, ~0ul - 1, 1ul << 63, (1ul << 63) - 1})
            { if (k > 2 && g.chance(1, 2)) continue; m.powul(2, 1, e); if (g.chance(1, 3)) { m.copy(3, 1); m.ipowul(3, e); } }
        for (int d = -2; d <= 2; d++) for (int mult = 1; mult <= 2; mult++) {
            Z e = size * Z(mult) + Z(2) - Z(2 - d); if (mult == 2 || d > 0 ? g.chance(3, 4) : k > 2 && g.chance(1, 2)) continue;
            m.pow(2, 1, bof<40>(e));
        }
        m.dump();
    }
}
template<class F> void drive_sqrt(const FieldId &id) {
    Rng g(seed() * 32452843 + id.salt);
    {
        FM<F> m(id.key, id.desc, 3, g);
        m.zero(1); m.sqrt(2, 1); m.one(1); m.sqrt(2, 1);
        for (int t = 0; t < N(K<F>::deg >= 6 ? 12 : 24, 300); t++) { m.load(1, any<F>(g)); m.sqr(2, 1); m.sqrt(3, 2); m.sqrt(2, 2); m.sqr(3, 3); }
        m.dump();
    }
}
template<class F> void drive_sqrt_ts(const FieldId &id) { // two-power torsion of every height
    Rng g(seed() * 49979687 + id.salt);
    FM<F> m(id.key, id.desc, 3, g);
    int s = (int)F::s;
    std::vector<F> z(s + 1); z[s] = F::nqr_to_t;           // z[k] has order 2^k
    for (int k = s; k > 0; k--) z[k - 1] = z[k] * z[k];
    for (int rep = 0; rep < N(1, 6); rep++)
        for (int k = 0; k < s; k++) {                       // squares: the height stays below s
            F x = any_nonzero<F>(g); for (int i = 0; i < s; i++) x = x * x;
            F y = z[k] ^ (2 * g.below(100000) + 1);
            m.load(1, rep % 2 ? y * x : g.chance(1, 2) ? y : y * x); m.sqrt(2, 1);
            F w = any_nonzero<F>(g); m.load(1, y * w * w); m.sqrt(3, 1);
        }
    m.dump();
}
template<class F> void drive_frob(const FieldId &id) {
    Rng g(seed() * 86028121 + id.salt);
    FM<F> m(id.key, id.desc, 2, g);
    const int D = K<F>::deg;
    Z c[12];
    for (int k = 0; k <= 2 * D + 1; k++) for (int t = 0; t < N(D >= 12 ? 1 : 3, 12); t++) { m.load(1, any<F>(g)); m.frob(2, 1, k); }
    for (unsigned long k : {24ul, 25ul, 100ul, 1000003ul, (1ul << 31) - 1ul}) { m.load(1, any<F>(g)); m.frob(2, 1, k); m.frob(1, 1, k); }
    for (int i = 0; i < D; i++) for (int k = 1; k < (D < 2 ? 2 : D); k += (D >= 12 ? 3 : 1)) { // each basis element
        for (auto &x : c) x = Z(0); c[i] = Z(1); m.load(1, K<F>::make(c)); m.frob(2, 1, k);
    }
    m.dump();
}

// -------- subgroup shortcuts
template<class F> struct Cyc;       // big exponent p^k-1 over Phi_k(p)
template<class F> F raise(const F &x, const Z &e) { // through ^ with wide exponents
    const int W = 72; return x ^ bof<W>(e);
}
template<class F> F cyc_element(Rng &g) {
    const int D = K<F>::deg; Z p = K<F>::p(), p2 = p * p, phi = D == 4 ? p2 + Z(1) : D == 6 ? p2 - p + Z(1) : p2 * p2 - p2 + Z(1);
    Z full(1); for (int i = 0; i < D; i++) full = full * p;
    return raise(any_nonzero<F>(g), (full - Z(1)) / phi);
}
template<class F> F unit_element(Rng &g) {
    const int D = K<F>::deg; Z h(1); for (int i = 0; i < D / 2; i++) h = h * K<F>::p();
    return raise(any_nonzero<F>(g), h - Z(1));
}
template<class F, mp_size_t n> void cycpow(FM<F> &m, Rng &g, int d, int a) {
    Z z; switch (g.below(7)) { case 0: z = Z((int)g.below(8)); break; case 1: z = limb_pattern(g, n); break; case 2: z = pow2(g.below(64 * n)); break;
        case 3: z = pow2(g.below(64 * n)) - Z(1); break; case 4: z = zrand(g, pow2(64 * n)); break; case 5: z = zrand(g, pow2(64 * n - 3)); break;
        default: z = zrand(g, pow2(1 + g.below(64 * n))); }
    bigint<n> e = bof<n>(z);
    m.r[d] = m.r[a].cyclotomic_exp(e); Ev x("cycpow"); x.raw("e", jz(zof(e))); m.fin(x, d, a);
}
template<class F> void sparse(FM<F> &m, Rng &g);
template<mp_size_t n, const bigint<n> &md> void sparse_(FM<Fp4_model<n, md>> &m, Rng &g) {
    typedef Fp4_model<n, md> F; F y = any<F>(g); y.c0.c1 = Fp_model<n, md>::zero();
    m.r[2] = m.r[1].mul_by_023(y); Ev e("sparse"); e.raw("y", K<F>::js(y)); m.fin(e, 2, 1);
}
template<mp_size_t n, const bigint<n> &md> void sparse_(FM<Fp6_2over3_model<n, md>> &m, Rng &g) {
    typedef Fp6_2over3_model<n, md> F; F y = any<F>(g); y.c0.c0 = y.c0.c1 = Fp_model<n, md>::zero();
    m.r[2] = m.r[1].mul_by_2345(y); Ev e("sparse"); e.raw("y", K<F>::js(y)); m.fin(e, 2, 1);
}
template<mp_size_t n, const bigint<n> &md> void sparse_(FM<Fp12_2over3over2_model<n, md>> &m, Rng &g) {
    typedef Fp12_2over3over2_model<n, md> F; typedef Fp6_3over2_model<n, md> B; typedef Fp2_model<n, md> Q;
    Q l0 = any<Q>(g), lw = any<Q>(g), lv = any<Q>(g), z = Q::zero();
    switch (g.below(5)) { case 0: l0 = z; break; case 1: lw = z; break; case 2: lv = z; break; case 3: l0 = Q::one(); break; default: break; }
    { F y(B(l0, z, lv), B(z, lw, z)); m.r[2] = m.r[1].mul_by_024(l0, lw, lv); Ev e("sparse"); e.raw("y", K<F>::js(y)); m.fin(e, 2, 1); }
    { F y(B(lw, z, z), B(z, l0, lv)); m.r[2] = m.r[1].mul_by_045(l0, lw, lv); Ev e("sparse"); e.raw("y", K<F>::js(y)); m.fin(e, 2, 1); }
    { // operands taken from the multiplicand itself
        F x = m.r[1]; F y(B(x.c0.c0, z, x.c1.c1), B(z, x.c0.c2, z)); m.r[2] = m.r[1].mul_by_024(m.r[1].c0.c0, m.r[1].c0.c2, m.r[1].c1.c1);
        Ev e("sparse"); e.raw("y", K<F>::js(y)); m.fin(e, 2, 1); }
}
template<class F> void drive_cyc(const FieldId &id) {
    Rng g(seed() * 122949823 + id.salt);
    for (int t = 0; t < N(6, 60); t++) {
        FM<F> m(id.key, id.desc, 3, g);
        F x = t == 0 ? F::one() : cyc_element<F>(g);
        if (t > 1 && g.chance(1, 3)) x = x ^ (unsigned long)(1 + g.below(50));
        m.load(1, x);
        m.r[2] = m.r[1].cyclotomic_squared(); m.res("cycsqr", 2, 1);
        m.r[2] = m.r[1].unitary_inverse(); m.res("cycinv", 2, 1); m.mul(3, 1, 2);
        m.load(3, t == 0 ? F::one() : t == 1 ? -F::one() : unit_element<F>(g)); m.r[2] = m.r[3].unitary_inverse(); m.res("cycinv", 2, 3);
        cycpow<F, 1>(m, g, 2, 1); cycpow<F, 4>(m, g, 3, 1); if (t % 2) cycpow<F, 6>(m, g, 2, 1);
        if (t == 0) { m.load(1, cyc_element<F>(g)); for (unsigned long e : {0ul, 1ul, 2ul, 3ul, 4ul, 6ul, 7ul, 11ul, ~0ul, 1ul << 63}) {
            m.r[2] = m.r[1].cyclotomic_exp(bigint<1>(e)); Ev y("cycpow"); y.raw("e", ju64(e)); m.fin(y, 2, 1); } }
        cycpow<F, 2>(m, g, 1, 1); m.dump();
    }
    for (int t = 0; t < N(10, 150); t++) {
        FM<F> m(id.key, id.desc, 3, g);
        m.load(1, any<F>(g)); sparse_(m, g); m.load(1, any<F>(g)); sparse_(m, g); sparse_(m, g);
        m.dump();
    }
}

// ------------------------------------------- tiny fields: complete enumeration
template<class F> F nth(long i) { Z c[12]; unsigned long p = mpz_get_ui(K<F>::p().v); for (int k = 0; k < K<F>::deg; k++) { c[k] = Z((unsigned long)(i % p)); i /= p; } return K<F>::make(c); }
template<class F> long tiny_size() { long q = 1, p = (long)mpz_get_ui(K<F>::p().v); for (int k = 0; k < K<F>::deg; k++) q *= p; return std::min(q, 2000000000l); }
template<class F, class Fn> void table(const char *fn, const FieldId &id, long from, long to, Fn f, long x = 0) {
    Begin().raw(id.key.c_str(), id.desc).i("n", 1);
    std::string s = "["; bool canon = true;
    for (long i = from; i < to; i++) { F v = f(nth<F>(i)); if (i > from) s += ","; s += K<F>::js(v); canon = canon && K<F>::canon(v); }
    Ev("table").str("f", fn).i("from", from).i("to", to).i("x", x).raw("v", s + "]").b("c", canon);
}
} // namespace vt
