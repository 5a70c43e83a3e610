// P14: group law. P15: scalar multiplication. (mode = law | mul)
#include "curvemachine.hpp"
using namespace vt;

// Points beside the curve: the two sides of its equation differ in one component only, or are opposite, or one is a
// multiple of the other. False if there is none for this abscissa.
inline edwards_Fq edwards_a(edwards_G1) { return edwards_coeff_a; }
inline edwards_Fq edwards_d(edwards_G1) { return edwards_coeff_d; }
inline edwards_Fq3 edwards_a(edwards_G2) { return edwards_G2::mul_by_a(edwards_Fq3::one()); }
inline edwards_Fq3 edwards_d(edwards_G2) { return edwards_G2::mul_by_d(edwards_Fq3::one()); }
template<class G, bool EDWARDS = C<G>::model == INVERTED> struct Beside {
    typedef typename C<G>::F F;
    static bool root(const F &x, const F &off, const F &factor, F &y) {
        F r = (x * x * x + Coef<G>::a() * x + Coef<G>::b()) * factor + off;
        if (!is_square(r)) return false;
        y = r.sqrt();
        return true;
    }
    static G point(const F &x, const F &y) { return G(x, y, F::one()); }
};
template<class G> struct Beside<G, true> {
    typedef typename C<G>::F F;
    static bool root(const F &x, const F &off, const F &factor, F &y) {
        F u = x * x - edwards_a(G());
        if (u.is_zero()) return false;
        F r = ((x * x - edwards_d(G())) * factor + off) * u.inverse();
        if (r.is_zero() || !is_square(r)) return false;
        y = r.sqrt();
        return true;
    }
    static G point(const F &x, const F &y) { G q = from_affine<G>(x.inverse(), y.inverse()); rescale(q, x * y); return q; }   // inverted coordinates, Z = 1
};
template<class G> void beside(Rng &g) {
    typedef typename C<G>::F F;
    for (int round = 0; round < N(1, 6); round++) for (int kind = 0; kind < 2 + 2 * K<F>::deg; kind++) for (int i = 0; i < 30; i++) {
        F x = any_nonzero<F>(g), y, off = F::zero(), factor = F::one();
        if (kind == 0) factor = -factor;
        else if (kind == 1) factor += factor;
        else { Z z[6]; z[(kind - 2) / 2] = kind % 2 ? Z(1) : Z(1) + zrand(g, K<F>::p() - Z(1)); off = K<F>::make(z); }
        if (!Beside<G>::root(x, off, factor, y)) continue;
        const G p = Beside<G>::point(x, y);
        if (C<G>::model == INVERTED) { x = x.inverse(); y = y.inverse(); }
        for (int how = 0; how < 3; how++) {
            G q(p);
            Z u[6]; u[0] = Z(2) + zrand(g, K<F>::p() - Z(2));
            if (how == 1) rescale(q, K<F>::make(u));                        // the difference stays in its component
            if (how == 2) rescale(q, any_nonzero<F>(g));
            Ev("wellformed").raw("x", "[" + K<F>::js(x) + "," + K<F>::js(y) + "]").b("r", q.is_well_formed());
        }
        break;
    }
}
template<class G> void well_formed(Rng &g) {
    typedef typename C<G>::F F;
    for (int i = 0; i < N(6, 40); i++) {
        G p = any_operand<G>(g);
        F x, y;
        if (p.is_zero()) continue;
        G c(p); c.to_affine_coordinates(); x = c.X; y = c.Y;
        switch (g.below(5)) {
        case 0: y += F::one(); break;
        case 1: x += F::one(); break;
        case 2: y = any_nonzero<F>(g); break;
        case 3: if (!x.is_zero() && !y.is_zero()) std::swap(x, y); break;
        default: break;
        }
        if (C<G>::model == INVERTED && (x.is_zero() || y.is_zero())) continue;
        G q = from_affine<G>(x, y);
        if (g.chance(1, 2)) rescale(q, any_nonzero<F>(g));
        Ev("wellformed").raw("x", "[" + K<F>::js(x) + "," + K<F>::js(y) + "]").b("r", q.is_well_formed());
    }
    for (int i = 0; i < 4; i++) { G z = some_zero<G>(g); Ev("wellformed").raw("x", "[]").b("r", z.is_well_formed()); }
}
template<class G> using F = typename C<G>::F;
template<class G> void law(int salt) {
    Rng g(seed() * 7919 + salt);
    // directed: every pair of relations between operands, in every representation
    for (int k = 0; k < N(8, 60); k++) {
        CM<G> m(4, g);
        m.load(1, k == 0 ? odd_point<G>(g) : any_operand<G>(g)); m.copy(2, 1); m.scale(2); m.neg(3, 1); m.scale(3);
        m.eq(1, 2); m.eq(1, 3); m.eq(2, 2);
        for (int form = 0; form < 3; form++) {
            auto A = [&](int d, int a, int b) { form == 0 ? m.add(d, a, b) : form == 1 ? m.addm(d, a, b) : m.madd(d, a, b); };
            A(4, 1, 2); m.scale(4); A(4, 1, 3); m.iszero(4); m.eq(4, 1);
            A(4, 4, 1); m.zero(4); A(4, 4, 2); m.zero(4); A(4, 1, 4); m.zero(4); m.scale(4); A(4, 4, 4); m.iszero(4);
            A(4, 1, 1); A(4, 4, 3); m.eq(4, 1); m.eq(1, 4);
        }
        m.load(4, some_zero<G>(g)); m.add(2, 1, 4); m.sub(3, 4, 1); m.sub(3, 3, 3); m.iszero(3); m.eq(3, 4); m.dbl(3, 3); m.neg(3, 3); m.iszero(3); m.special(3);
        m.dbl(2, 1); m.sub(2, 2, 1); m.eq(2, 1); m.special(2); m.eq(1, 2); m.dump();
    }
    // the same point at particular scales, and points related by small endomorphisms
    for (int k = 0; k < N(8, 60); k++) {
        CM<G> m(4, g);
        m.load(1, any_operand<G>(g)); if (k % 3) m.special(1);
        for (int t = 0; t < 3; t++) {
            if (t < 2) { m.copy(2, 1); rescale(m.r[2], t == 0 && k % 2 ? -F<G>::one() : some_scale<F<G>>(g)); m.op("scale", 2); }
            else { typedef typename G::scalar_field Fr; const Z r = K<Fr>::p(), n = r - Z(1); static const int o[] = {2, 3, 3, 6, 4, 6}; const Z q(o[k % 6]);
                   m.mulf(2, 1, Fr(bof<Fr::num_limbs>(n % q == Z(0) ? powm(zrand(g, r), n / q, r) : n))); if (k % 2) m.special(2); }
            m.eq(1, 2); m.eq(2, 1); m.neg(3, 2); m.eq(1, 3); m.eq(3, 1);
            m.add(4, 1, 2); m.add(4, 2, 1); m.add(4, 1, 3); m.addm(4, 2, 1); m.addm(4, 1, 3); m.sub(4, 1, 2); m.iszero(4); m.sub(4, 1, 3);
            m.madd(4, 1, 2); m.madd(4, 2, 1); m.madd(4, 1, 3); m.dbl(4, 2); m.dbl(4, 3);
        }
        m.dump();
    }
    // random programs
    for (int k = 0; k < N(16, 150); k++) {
        CM<G> m(4, g);
        m.one(1); m.load(2, any_operand<G>(g)); m.load(3, any_operand<G>(g));
        for (int i = 0; i < 30; i++) {
            int a = m.R(), b = m.R(), d = m.R();
            switch (g.below(14)) {
            case 0: case 1: m.add(d, a, b); break;
            case 2: m.addm(d, a, b); break;
            case 3: case 4: m.madd(d, a, b); break;
            case 5: m.sub(d, a, b); break;
            case 6: case 7: m.dbl(d, a); break;
            case 8: m.neg(d, a); break;
            case 9: m.copy(d, a); m.scale(d); break;
            case 10: m.special(d); break;
            case 11: m.eq(a, b); m.iszero(d); break;
            case 12: m.load(d, any_operand<G>(g)); break;
            default: m.scale(d);
            }
        }
        m.dump();
    }
    { CM<G> m(1, g); well_formed<G>(g); beside<G>(g); }
}
template<class G, bool B = C<G>::has_cofactor> struct Cof { static void go(CM<G> &m, int d, int a) { m.r[d] = m.r[a].mul_by_cofactor(); m.op("cof", d, a); } };
template<class G> struct Cof<G, false> { static void go(CM<G> &, int, int) {} };
template<class G> struct MQ { static void go(CM<G> &, int, int) {} };
#define HASQ(T) template<> struct MQ<T> { static void go(CM<T> &m, int d, int a) { m.r[d] = m.r[a].mul_by_q(); m.op("mulq", d, a); } };
HASQ(alt_bn128_G2) HASQ(bls12_381_G2) HASQ(edwards_G2) HASQ(mnt4_G2) HASQ(mnt6_G2)

template<class G> void mul(int salt) {
    Rng g(seed() * 104729 + salt);
    typedef typename G::scalar_field Fr;
    const Z r = K<Fr>::p();
    for (int k = 0; k < N(14, 100); k++) {
        CM<G> m(3, g);
        m.load(1, any_operand<G>(g));
        m.load(2, subgroup_point<G>(g)); shake(g, m.r[2]); m.op("scale", 2);
        m.mulb(3, 2, Fr::mod); m.iszero(3);
        m.mulb(3, 2, bof<Fr::num_limbs>(r - Z(1))); m.add(3, 3, 2); m.iszero(3);
        for (int i = 0; i < 6; i++) {
            int d = m.R(), a = m.R();
            switch (g.below(9)) {
            case 0: m.mulf(d, a, any<Fr>(g)); break;
            case 1: m.mulb(d, a, bof<1>(any_scalar<1>(g, r))); break;
            case 2: m.mulb(d, a, bof<2>(any_scalar<2>(g, r))); break;
            case 3: m.mulb(d, a, bof<5>(any_scalar<5>(g, r))); break;
            case 4: m.mulsm(d, a, bof<6>(any_scalar<6>(g, r))); break;
            case 5: m.mulb(d, a, bof<Fr::num_limbs>(any_scalar<Fr::num_limbs>(g, r))); break;
            case 6: m.mulsm(d, a, bof<3>(any_scalar<3>(g, r))); break;
            case 7: m.mulf(d, a, Fr::zero()); break;
            default: m.mulb(d, d, bof<4>(any_scalar<4>(g, r)));
            }
        }
        m.load(1, any_operand<G>(g)); Cof<G>::go(m, 3, 1); Cof<G>::go(m, 1, 1);
        m.load(2, subgroup_point<G>(g)); m.scale(2); MQ<G>::go(m, 3, 2); MQ<G>::go(m, 2, 2);
        m.load(2, some_zero<G>(g)); MQ<G>::go(m, 3, 2); Cof<G>::go(m, 3, 2); m.mulf(3, 2, any<Fr>(g)); m.mulb(3, 2, bof<4>(any_scalar<4>(g, r)));
    }
    { CM<G> m(1, g); for (int i = 0; i < N(4, 30); i++) { m.r[1] = G::random_element(); m.op("sample", 1); } }
}
int main(int, char **argv) {
    open_trace(argv[1]);
    init_all_curves();
    std::string mode = argv[2];
    int s = 0;
#define D(T) { ++s; if (mode == "law") TASK(law<libff::T>(s)); else TASK(mul<libff::T>(s)); }
    ALL_GROUPS(D)
    close_trace();
}
