// P01: prime-field arithmetic over the register machine, with operands chosen
// so that carries, borrows and the final subtraction sit on their boundaries.
#include "fieldmachine.hpp"
#include "curves_fields.hpp"
using namespace vt;

template<class F> void loadint(FM<F> &m, int d, int how, long x) {
    Z mag; bool neg = false;
    if (how == 0) { m.r[d] = F(x); neg = x < 0; mag = neg ? Z(0) - Z(x) : Z(x); }
    else if (how == 1) { m.r[d] = F(x, true); mag = Z((unsigned long)x); }
    else { m.r[d].set_ulong((unsigned long)x); mag = Z((unsigned long)x); }
    Ev e("loadint"); e.b("neg", neg).raw("mag", jz(mag)); m.fin(e, d);
}
template<class F> void num(FM<F> &m, int a) {
    Ev("num").i("a", a).raw("v", jz(zof(m.r[a].as_bigint()))).raw("lo", ju64(m.r[a].as_ulong()));
}

template<class F> void run(const char *name, uint64_t salt) {
    Rng g(seed() * 1000 + salt);
    const Z p = K<F>::p();
    const int n = K<F>::limbs;
    const Z R = pow2(64 * n) % p, Ri = inv(R, p);
    const std::string nm = std::string("\"") + name + "\"";
    // 1. integers in and out
    {
        FM<F> m("field", nm, 3, g);
        for (long x : {0L, 1L, 2L, -1L, -2L, 7L, -7L, 1L << 62, -(1L << 62), 0x7fffffffffffffffL, -0x7fffffffffffffffL}) { loadint(m, 1, 0, x); num(m, 1); m.iszero(1); }
        for (long x : {0L, 1L, -1L, -2L, (long)(1ul << 63), 0x7fffffffffffffffL, 5L}) { loadint(m, 1, 1, x); loadint(m, 2, 2, x); num(m, 2); m.eq(1, 2); }
        m.zero(1); m.one(2); m.eq(1, 2); m.iszero(1); m.iszero(2); num(m, 1); num(m, 2); m.dump();
        m.neg(3, 1); m.iszero(3); m.eq(3, 1); m.neg(3, 2); num(m, 3); m.add(3, 3, 2); m.iszero(3); m.eq(1, 3);
        m.sub(3, 2, 2); m.iszero(3); m.mul(3, 1, 2); m.iszero(3);
    }
    // 2. directed additions and subtractions on internal forms: a + b = p + d and ripples
    const int rounds = N(30, 400);
    for (int t = 0; t < rounds; t++) {
        FM<F> m("field", nm, 4, g);
        Z am = t % 3 == 0 ? limb_pattern(g, n) % p : pick(g, p, n);
        Z delta;
        switch (g.below(5)) { case 0: delta = Z(0); break; case 1: delta = Z(1); break; case 2: delta = p - Z(1); break;
            case 3: delta = (pow2(64 * g.below(n)) + Z((int)g.below(3)) - Z(1)) % p; break; default: delta = (p - pow2(64 * g.below(n)) % p + Z((int)g.below(3))) % p; }
        Z bm = (p - am + delta) % p;
        bool mont = g.chance(2, 3);
        Z k = mont ? Ri : Z(1);
        m.loadz(1, am * k % p); m.loadz(2, bm * k % p);
        m.add(3, 1, 2); m.iszero(3); m.sub(4, 1, 2); m.sub(4, 2, 1); m.neg(4, 1); m.sub(4, 4, 2); m.iadd(1, 2); m.eq(1, 3); m.isub(1, 2);
        m.isub(2, 3); m.neg(2, 2); m.eq(1, 2); m.isub(3, 1); m.iadd(3, 3); m.isub(3, 3); m.iszero(3); m.iadd(1, 1); m.dump();
        // a - b with a borrow that ripples through the words
        Z cm = pow2(64 * g.below(n) + (g.chance(1, 2) ? 0 : g.below(64))) % p, dm = Z((int)g.below(4));
        m.loadz(1, cm * k % p); m.loadz(2, dm * k % p); m.sub(3, 1, 2); m.sub(4, 2, 1); m.isub(1, 2); m.add(4, 4, 3); m.iszero(4);
        m.dump();
    }
    // 3. directed products: residue s of a*b in internal form is tiny or just below p, so that the
    //    unreduced result is p + s (the final comparison is decided by the lowest words only) or p - t
    for (int t = 0; t < rounds; t++) {
        FM<F> m("field", nm, 4, g);
        for (int u = 0; u < 3; u++) {
            Z am = g.chance(1, 2) ? zrand(g, p) : pick(g, p, n);
            if (mpz_sgn(am.v) == 0) am = p - Z(1);
            Z s;
            switch (g.below(6)) {
            case 0: s = Z((int)g.below(4)); break;
            case 1: s = p - Z(1) - Z((int)g.below(3)); break;
            case 2: s = (pow2(64 * g.below(n)) + Z((int)g.below(3)) - Z(1)) % p; break;
            case 3: s = limb_pattern(g, n) % p; break;
            case 4: s = (p - (pow2(64 * g.below(n)) + Z((int)g.below(3))) % p) % p; break;
            default: s = Z((unsigned long)g.next()) % p;
            }
            Z bm = s * R % p * inv(am, p) % p;
            m.loadz(1, am * Ri % p); m.loadz(2, bm * Ri % p);
            m.mul(3, 1, 2); m.mul(4, 2, 1); m.eq(3, 4); m.imul(1, 2); m.eq(1, 3);
            // squares: root of s if it is one
            Z s2 = s * R % p; // a_m^2 = s R
            if (mpz_legendre(s2.v, p.v) == 1 && g.chance(1, 2)) {
                // a_m = sqrt(s R): found with the field's own root and checked by the machine
                F root = K<F>::make(&s2).sqrt(); Z am2 = zof(root.as_bigint());
                m.loadz(1, am2 * Ri % p); m.sqr(2, 1); m.mul(3, 1, 1); m.eq(2, 3); m.isqr(1); m.eq(1, 2);
            } else { m.loadz(1, am * Ri % p); m.sqr(2, 1); m.mul(3, 1, 1); m.eq(2, 3); m.imul(1, 1); }
        }
        m.dump();
    }
    // 4. random histories with every aliasing pattern
    for (int t = 0; t < N(12, 150); t++) {
        FM<F> m("field", nm, 4, g);
        for (int i = 1; i <= 4; i++) m.loadz(i, pick(g, p, n));
        for (int u = 0; u < 60; u++) {
            int d = m.R(), a = m.R(), b = m.R();
            switch (g.below(13)) {
            case 0: m.add(d, a, b); break; case 1: m.sub(d, a, b); break; case 2: case 3: m.mul(d, a, b); break;
            case 4: m.iadd(d, b); break; case 5: m.isub(d, b); break; case 6: m.imul(d, b); break;
            case 7: m.neg(d, a); break; case 8: m.sqr(d, a); break; case 9: m.isqr(d); break;
            case 10: m.loadz(d, pick(g, p, n)); break; case 11: m.eq(a, b); m.iszero(a); num(m, a); break; case 12: m.copy(d, a); break;
            }
        }
        m.dump();
    }
}
int main(int argc, char **argv) {
    open_trace(argv[1]);
    init_all_fields();
    uint64_t salt = 1;
#define X(T) { salt++; TASK(run<libff::T>(#T, salt - 1)); }
    PRIME_FIELDS(X)
#undef X
    close_trace();
}
