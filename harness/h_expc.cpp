// Exponentiation templates over the shipped curve groups. MODE = wnaf | msm | fixed | batch
#include "curvemachine.hpp"
#include "expio.hpp"
using namespace vt;
// mixed addition requires normalized bases
#ifdef USE_MIXED_ADDITION
static const bool SPECIAL = true;
#else
static const bool SPECIAL = env_u64("VT_SPECIAL", 0);
#endif
template<class G> std::string jc(const G &p) { return js(p); }
template<class G, mp_size_t n> void exps(Rng &g, const Z &r) {
    for (int i = 0; i < N(2, 12); i++) {
        CM<G> m(2, g); m.load(1, any_operand<G>(g));
        Z k = g.chance(1, 3) ? scalar_pattern(g, n) % pow2(64 * n) : any_scalar<n>(g, r); bigint<n> kb = bof<n>(k);
        auto res = [&](const G &v) { m.r[2] = v; Ev e("mul"); e.raw("k", jz(k)); m.res(e, 2, 1); };
        size_t w0 = 1 + g.below(5);
        for (size_t w : {w0, (size_t)(6 + g.below(3))}) res(fixed_window_wnaf_exp<G, n>(w, m.r[1], kb));
        res(opt_window_wnaf_exp<G, n>(m.r[1], kb, kb.num_bits()));
        if (i % 2) res(opt_window_wnaf_exp<G, n>(m.r[1], kb, g.below(64 * n)));
    }
}
template<class G> void wnaf(int salt) {
    Rng g(seed() * 31337 + salt); typedef typename G::scalar_field Fr; const Z r = K<Fr>::p();
    exps<G, 1>(g, r); exps<G, 3>(g, r); exps<G, Fr::num_limbs>(g, r); exps<G, 6>(g, r);
}
template<class G> G base(Rng &g) { G p = any_operand<G>(g); if (SPECIAL) p.to_special(); return p; }
template<class G> void msm(int salt) {
    Rng g(seed() * 27644437 + salt); typedef typename G::scalar_field Fr;
    { Begin b; b.str("group", C<G>::name()).i("n", 1); }
    for (int i = 0; i < N(7, 60); i++) {
        int len = i < 3 ? i : i == 3 ? N(40, 200) : (int)g.below(9); int mode = (int)g.below(4);
        std::vector<Fr> ks; std::vector<G> ps; Fr common = any<Fr>(g);
        for (int j = 0; j < len; j++) {
            ks.push_back(mode == 0 ? common : mode == 1 ? Fr((long)g.below(3)) : mode == 2 && g.chance(1, 2) ? Fr((long)g.below(3)) : any<Fr>(g));
            if (j && g.chance(1, 5)) { ps.push_back(g.chance(1, 2) ? ps[j - 1] : -ps[j - 1]); if (SPECIAL) ps[j].to_special(); } else ps.push_back(base<G>(g));
        }
        msm_event<G, Fr>(ps, ks, {1, 1 + (size_t)g.below(len + 3)}, jc<G>);
    }
}
template<class G> void fixed(int salt) {
    Rng g(seed() * 86028121 + salt); typedef typename G::scalar_field Fr; const Z r = K<Fr>::p();
    { Begin b; b.str("group", C<G>::name()).i("n", 1); }
    for (int i = 0; i < N(5, 40); i++) {
        size_t size = i == 0 ? Fr::ceil_size_in_bits() : i == 1 ? 1 + g.below(9) : 1 + g.below(Fr::ceil_size_in_bits());
        size_t w = 1 + g.below(6); if (i == 1) w = 1 + g.below(10);
        Z lim = pow2(size); if (r < lim) lim = r;
        std::vector<Fr> ks; for (int j = 0; j < 4; j++) { Z k = j == 0 ? lim - Z(1) : zrand(g, lim); ks.push_back(K<Fr>::make(&k)); }
        G p = any_operand<G>(g); if (i % 2) p = subgroup_point<G>(g);
        fixed_event<G, Fr>(p, size, w, ks, nullptr, Z(0), jc<G>);
        Fr c = any<Fr>(g); G q = subgroup_point<G>(g);
        if (i < 3) fixed_event<G, Fr>(q, Fr::ceil_size_in_bits(), w, ks, &c, r, jc<G>);
    }
    for (size_t v : G::fixed_base_exp_window_table) for (long d = -1; d <= 1; d++) if (v || d >= 0) Ev("expwindow").i("w", (long)get_exp_window_size<G>(v + d));
    for (size_t c : {0ul, 1ul, 2ul, 1000ul, 1ul << 32, ~0ul}) Ev("expwindow").i("w", (long)get_exp_window_size<G>(c));
    size_t w = get_exp_window_size<G>(3);                  // the advised window, used
    std::vector<Fr> ks; for (int j = 0; j < 3; j++) ks.push_back(any<Fr>(g));
    fixed_event<G, Fr>(subgroup_point<G>(g), Fr::ceil_size_in_bits(), w, ks, nullptr, Z(0), jc<G>);
}
template<class G> void batch_event(const std::vector<G> &v, bool raw) {
    std::vector<G> w = v;
    if (raw) G::batch_to_special_all_non_zeros(w); else batch_to_special(w);
    bool sp = true; for (size_t j = 0; j < w.size(); j++) sp = sp && w[j].is_special() && w[j].is_well_formed() && w[j] == v[j] && w[j].is_zero() == v[j].is_zero();
    Ev("batchspecial").raw("ps", jpts(v)).raw("v", jpts(w)).b("sp", sp);
}
template<class G> void batch(int salt) {
    Rng g(seed() * 49979687 + salt);
    { Begin b; b.str("group", C<G>::name()).i("n", 1); }
    for (int i = 0; i < N(25, 200); i++) {
        bool raw = i % 3 == 0; int len = i < 4 ? i / 2 : i == 4 ? 33 : len_of(g, 10) % 70;
        std::vector<G> v;
        for (int j = 0; j < len; j++) {
            G p = j && g.chance(1, 6) ? v[g.below(j)] : g.chance(1, 4) ? some_zero<G>(g) : any_operand<G>(g);
            if (raw && p.is_zero()) p = G::one();
            if (!p.is_zero() && g.chance(1, 2)) rescale(p, any_nonzero<typename C<G>::F>(g));
            v.push_back(p);
        }
        batch_event(v, raw);
    }
    // every composition of up to three: identities, normalized points, others
    for (int len = 0; len <= 3; len++) for (int c = 0; c < (len == 3 ? 27 : len == 2 ? 9 : len == 1 ? 3 : 1); c++) {
        std::vector<G> v; bool zeros = false;
        for (int j = 0, k = c; j < len; j++, k /= 3) {
            G p = subgroup_point<G>(g); if (p.is_zero()) p = G::one();
            p.to_special();
            if (k % 3 == 0) { p = some_zero<G>(g); zeros = true; }
            if (k % 3 == 2) do rescale(p, any_nonzero<typename C<G>::F>(g)); while (p.is_special());
            v.push_back(p);
        }
        batch_event(v, false); if (!zeros) batch_event(v, true);
    }
}
int main(int, char **argv) {
    open_trace(argv[1]);
    init_all_curves();
    std::string mode = argv[2];
    int s = 0;
#define D(T) { ++s; if (mode == "wnaf") TASK(wnaf<libff::T>(s)); if (mode == "msm") TASK(msm<libff::T>(s)); if (mode == "fixed") TASK(fixed<libff::T>(s)); if (mode == "batch") TASK(batch<libff::T>(s)); }
    ALL_GROUPS(D)
    close_trace();
}
