// Exponentiation templates over the abstract group Z_M: small instances whole,
// large ones directed. MODE = wnaf | msm | fixed | batch
#include "expio.hpp"
#include "curves_fields.hpp"
#include "progs.hpp"
using namespace vt;

// The group Z_M. Elements remember whether they are normalized, so that an
// addition requiring a normalized operand can tell.
struct ZG {
    static Z M; static std::vector<size_t> wnaf_window_table, fixed_base_exp_window_table;
    Z v; bool sp;
    ZG() : sp(true) {}
    explicit ZG(const Z &z, bool s = false) : v(z % M), sp(s || v == Z(0)) {}
    static ZG zero() { return ZG(); }
    static ZG one() { return ZG(Z(1), true); }
    bool is_zero() const { return v == Z(0); }
    bool is_special() const { return sp; }
    void to_special() { sp = true; }
    ZG operator+(const ZG &o) const { return ZG(v + o.v); }
    ZG operator-(const ZG &o) const { return ZG(v - o.v); }
    ZG operator-() const { return ZG(M - v, sp); }
    ZG dbl() const { return ZG(v + v); }
    ZG add(const ZG &o) const { return *this + o; }
    ZG mixed_add(const ZG &o) const { if (!o.sp) bad_event("MixedAdditionOfUnnormalized"); return ZG(v + o.v); }
    bool operator==(const ZG &o) const { return v == o.v; }
    bool operator!=(const ZG &o) const { return !(v == o.v); }
    static void batch_to_special_all_non_zeros(std::vector<ZG> &vec) {
        for (ZG &e : vec) { if (e.is_zero()) bad_event("ZeroInNonzeroBatch"); e.sp = true; }
    }
};
Z ZG::M; std::vector<size_t> ZG::wnaf_window_table, ZG::fixed_base_exp_window_table;
template<mp_size_t m> ZG operator*(const bigint<m> &k, const ZG &p) { return ZG(zof(k) * p.v); }
template<mp_size_t m> ZG operator*(const Sc<m> &k, const ZG &p) { return ZG(zof(k.v) * p.v); }
template<mp_size_t n, const bigint<n> &p_> ZG operator*(const Fp_model<n, p_> &k, const ZG &p) { return ZG(zof(k.as_bigint()) * p.v); }
static std::string jg(const ZG &p) { return jz(p.v); }
static void begin() { Begin b; b.raw("m", jz(ZG::M)); }
static ZG point(Rng &g, bool special_) {
    switch (g.below(8)) { case 0: return ZG::zero(); case 1: return ZG::one(); default: return ZG(zrand(g, ZG::M), special_ || g.chance(1, 2)); }
}
// mixed addition requires normalized bases
#ifdef USE_MIXED_ADDITION
static const bool SPECIAL = true;
#else
static const bool SPECIAL = env_u64("VT_SPECIAL", 0);
#endif
static void tables(Rng &g) {
    static const size_t shipped[][9] = {{11, 24, 60, 127, 0}, {5, 15, 39, 109, 0}, {8, 29, 65, 130, 0}, {0}, {1, 2, 3, 4, 5, 6, 7, 0}, {9, 14, 24, 117, 0}};
    ZG::wnaf_window_table.clear();
    for (const size_t *p = shipped[g.below(6)]; *p; p++) ZG::wnaf_window_table.push_back(*p);
}
template<mp_size_t n> void wnaf(Rng &g) {
    begin();
    for (int w = 1; w <= 9; w++) for (int k = 0; k < 40; k++) { wnaf_event<n>(w, Z(k)); wnaf_event<n>(w, pow2(64 * n) - Z(1) - Z(k)); }
    begin();
    for (int i = 0; i < N(250, 6000); i++) wnaf_event<n>(1 + g.below(i % 8 == 0 ? 24 : 10), scalar_pattern(g, n));
    begin();
    for (int i = 0; i < N(60, 1500); i++) {
        Z k = scalar_pattern(g, n); ZG p = point(g, false); Results r; bigint<n> kb = bof<n>(k);
        for (size_t w = 1; w <= 10; w++) r.add("window " + std::to_string(w), jg(fixed_window_wnaf_exp<ZG, n>(w, p, kb)));
        for (int t = 0; t < 3; t++) { tables(g); r.add("opt", jg(opt_window_wnaf_exp<ZG, n>(p, kb, kb.num_bits()))); }
        r.add("opt for more bits", jg(opt_window_wnaf_exp<ZG, n>(p, kb, 64 * n)));
        Ev("exp").raw("k", jz(k)).raw("p", jg(p)).raw("vs", r.json());
    }
}
template<class S> std::vector<S> mk(const std::vector<Z> &zs) { std::vector<S> r; for (const Z &z : zs) r.push_back(S(z)); return r; }
template<mp_size_t n> void msm(Rng &g) {
    typedef Sc<n> S;
    // every list of up to three scalars below 6 and of two below 24
    if (n == 1) {
        begin(); tables(g);
        std::vector<ZG> ps;
        msm_event<ZG, S>(ps, std::vector<S>(), {1, 2, 5}, jg);
        for (int i = 0; i < 4; i++) ps.push_back(ZG(zrand(g, ZG::M), true));
        for (int a = 0; a < 24; a++) { msm_event<ZG, S>({ps[0]}, mk<S>({Z(a)}), {1, 2}, jg); for (int b = 0; b < 24; b++) msm_event<ZG, S>({ps[0], ps[1]}, mk<S>({Z(a), Z(b)}), {1, 2, 3}, jg); }
        for (int a = 0; a < 6; a++) for (int b = 0; b < 6; b++) for (int c = 0; c < 6; c++) {
            msm_event<ZG, S>({ps[0], ps[1], ps[2]}, mk<S>({Z(a), Z(b), Z(c)}), {1, 2, 3}, jg);
            if (thorough()) for (int d = 0; d < 6; d++) msm_event<ZG, S>(ps, mk<S>({Z(a), Z(b), Z(c), Z(d)}), {1, 2, 3, 4}, jg);
        }
    }
    for (int i = 0; i < N(90, 1500); i++) {
        if (i % 30 == 0) begin();
        tables(g);
        int len = (int)g.below(i % 15 == 0 ? N(150, 600) : 14);
        std::vector<Z> ks; std::vector<ZG> ps; int mode = (int)g.below(7);
        Z base = scalar_pattern(g, n) % pow2(64 * n);
        for (int j = 0; j < len; j++) {
            Z k;
            switch (mode) {
            case 0: k = base; break;                                                             // all equal
            case 1: k = (base + Z((int)g.below(5))) % pow2(64 * n); break;                       // equal except for low words
            case 2: k = g.chance(1, 2) ? Z((int)g.below(3)) : zrand(g, pow2(64 * n)); break;     // zeros, ones and large
            case 3: k = pow2(g.below(64 * n)); break;
            case 4: k = Z((int)g.below(4)); break;
            case 5: { int w = (int)g.below(n); k = (base + pow2(64 * w)) % pow2(64 * n); break; } // differ in one word
            default: k = scalar_pattern(g, n);
            }
            ks.push_back(k);
            ps.push_back(j && g.chance(1, 5) ? ps[g.below(j)] : point(g, SPECIAL));
        }
        msm_event<ZG, S>(ps, mk<S>(ks), {1, 2, 1 + (size_t)g.below(len + 3), (size_t)len + 1, (size_t)std::max(1, len)}, jg);
    }
}
// long lists, on either side of powers of two
template<mp_size_t n> void msm_long(Rng &g) {
    typedef Sc<n> S;
    begin();
    std::vector<int> lens = {63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1024, 1025};
    if (thorough()) for (int l : {2047, 2048, 2049, 4095, 4096, 4097, 10000}) lens.push_back(l);
    for (int len : lens) {
        std::vector<Z> ks; std::vector<ZG> ps;
        for (int j = 0; j < len; j++) { ks.push_back(g.chance(1, 4) ? Z((int)g.below(3)) : g.chance(1, 4) && j ? ks[g.below(j)] : scalar_pattern(g, n)); ps.push_back(ZG(zrand(g, pow2(60)), true)); }
        msm_event<ZG, S>(ps, mk<S>(ks), {1, 1 + (size_t)g.below(40)}, jg);
    }
}
// lists over the shipped scalar fields
template<class F> void msm_field(Rng &g) {
    begin();
    for (int i = 0; i < N(25, 400); i++) {
        tables(g);
        int len = (int)g.below(20); std::vector<F> ks; std::vector<ZG> ps;
        for (int j = 0; j < len; j++) { ks.push_back(j && g.chance(1, 6) ? ks[j - 1] : any<F>(g)); ps.push_back(point(g, SPECIAL)); }
        msm_event<ZG, F>(ps, ks, {1, 3, 1 + (size_t)g.below(len + 2)}, jg);
    }
}
template<mp_size_t n> void fixed(Rng &g) {
    typedef Sc<n> S;
    begin();
    for (int i = 0; i < N(110, 1500); i++) {
        size_t size = i < 80 ? 1 + g.below(70) : 1 + g.below(64 * n + 5);
        if (size > 64 * (size_t)n + 5) size = 64 * n;
        size_t w = 1 + g.below(i % 5 ? 7 : 12);
        Z lim = size >= 64 * (size_t)n ? pow2(64 * n) : pow2(size);
        std::vector<S> ks; int len = len_of(g, 7);
        for (int j = 0; j < len; j++) { Z k; switch (g.below(5)) { case 0: k = Z((int)g.below(3)); break; case 1: k = lim - Z(1); break; case 2: k = pow2(g.below(bits(lim) - 1)); break; default: k = zrand(g, lim); } ks.push_back(S(k % lim)); }
        ZG p = point(g, false);
        fixed_event<ZG, S>(p, size, w, ks, nullptr, Z(0), jg);
        S c(scalar_pattern(g, n));
        fixed_event<ZG, S>(p, 64 * n, w, ks, &c, S::modulus(), jg);
    }
    // every scalar of up to 7 bits with every window
    for (size_t size = 1; size <= 7; size++) for (size_t w = 1; w <= 9; w++) {
        std::vector<S> ks; for (int k = 0; k < 1 << size; k++) ks.push_back(S(Z(k)));
        fixed_event<ZG, S>(ZG(zrand(g, ZG::M)), size, w, ks, nullptr, Z(0), jg);
    }
    // advice, with and without a table
    static const size_t t1[] = {1, 4, 10, 25, 69, 0, 0, 300}, t2[] = {0, 0, 5}, t3[] = {0};
    const std::vector<std::vector<size_t>> ts = {{}, {t1, t1 + 8}, {t2, t2 + 3}, {t3, t3 + 1}};
    for (const auto &t : ts) { ZG::fixed_base_exp_window_table = t; for (size_t c : {0ul, 1ul, 3ul, 4ul, 5ul, 68ul, 69ul, 299ul, 300ul, 1000000ul, ~0ul}) Ev("expwindow").i("w", (long)get_exp_window_size<ZG>(c)); }
}
// ---- what the models of the algorithms went through
// scalars and windows of RecodeModel: as they are, and with the eight bits at the top and across the limbs
template<mp_size_t n> void recode(const std::vector<std::vector<Step>> &progs, Rng &g) {
    begin();
    for (const auto &prog : progs) for (const Step &s : prog) {
        const int at[4] = {0, 64 * n - 8, 60, (int)g.below(64 * n - 7)};
        for (int i = 0; i < 4; i++) if (i == (int)g.below(4) || i == 1) {
            const Z k = Z(s[1]) * pow2(at[i]) % pow2(64 * n);
            wnaf_event<n>(s[2], k);
            if (g.chance(1, 6)) { ZG p = point(g, false); Results r; r.add("window", jg(fixed_window_wnaf_exp<ZG, n>(s[2], p, bof<n>(k)))); Ev("exp").raw("k", jz(k)).raw("p", jg(p)).raw("vs", r.json()); }
        }
    }
}
// lists of scalars of MsmModel: every digit of two bits becomes a word
void lists(const std::vector<std::vector<Step>> &progs, Rng &g) {
    typedef Sc<2> S;
    const Z word[4] = {Z(0), Z(1), pow2(63), pow2(64) - Z(1)};
    begin(); size_t i = 0;
    for (const auto &prog : progs) {
        if (++i % 400 == 0) begin();
        if (i % 50 == 1) tables(g);
        if (prog.size() > 2 && !thorough() && g.below(3)) continue;
        std::vector<Z> ks; std::vector<ZG> ps;
        for (const Step &s : prog) { ks.push_back(word[s[1]] + word[s[2]] * pow2(64)); ps.push_back(ZG(zrand(g, pow2(80)), true)); }
        msm_event<ZG, S>(ps, mk<S>(ks), {1, 1 + (size_t)g.below(prog.size() + 1)}, jg);
    }
}
template<class F> void inverses(const char *name, Rng &g) {
    for (int i = 0; i < N(12, 150); i++) {
        std::vector<F> xs, ys; int len = i < 3 ? i : len_of(g, i % 6 == 0 ? 60 : 9);
        for (int j = 0; j < len; j++) xs.push_back(j && g.chance(1, 5) ? xs[g.below(j)] : any_nonzero<F>(g));
        ys = xs; batch_invert(ys);
        auto f = [](const F &x) { return K<F>::js(x); };
        Ev("batchinv").str("field", name).raw("xs", jlist(xs, f)).raw("v", jlist(ys, f));
    }
}
template<class F> void inner(const char *name, Rng &g) {
    for (int i = 0; i < N(10, 150); i++) {
        std::vector<F> as, bs; int len = i < 3 ? i : len_of(g, 12);
        for (int j = 0; j < len; j++) { as.push_back(any<F>(g)); bs.push_back(any<F>(g)); }
        auto f = [](const F &x) { return K<F>::js(x); };
        F v = inner_product<F>(as.begin(), as.end(), bs.begin(), bs.end());
        Ev("inner").str("field", name).raw("as", jlist(as, f)).raw("bs", jlist(bs, f)).raw("v", f(v));
    }
}
int main(int, char **argv) {
    open_trace(argv[1]);
    inhibit_profiling_info = inhibit_profiling_counters = true;
    init_all_fields();
    std::string mode = argv[2];
    mpz_ui_pow_ui(ZG::M.v, 2, 521); ZG::M = ZG::M - Z(1);        // a Mersenne prime
    Rng g(seed() * 6364136223 + mode.size());
    if (mode == "recode") { const auto progs = read_programs(argv[3]); recode<1>(progs, g); recode<3>(progs, g); }
    if (mode == "lists") lists(read_programs(argv[3]), g);
    if (mode == "wnaf") { wnaf<1>(g); wnaf<2>(g); wnaf<3>(g); wnaf<4>(g); wnaf<5>(g); wnaf<6>(g); }
    if (mode == "msm") {
        msm<1>(g); msm<2>(g); msm<3>(g); msm<4>(g); msm<5>(g); msm<6>(g);
        msm_long<1>(g); msm_long<2>(g);
        msm_field<alt_bn128_Fr>(g); msm_field<edwards_Fr>(g); msm_field<mnt4_Fr>(g); msm_field<bls12_381_Fr>(g);
        begin();
#define INNER(T) inner<T>(#T, g);
        PRIME_FIELDS(INNER)
    }
    if (mode == "fixed") { fixed<1>(g); fixed<2>(g); fixed<3>(g); fixed<4>(g); fixed<6>(g); }
    if (mode == "batch") {
        begin();
#define INV(T) inverses<T>(#T, g);
        PRIME_FIELDS(INV) EXT_FIELDS(INV) BIN_FIELDS(INV)
        for (int i = 0; i < N(60, 600); i++) {
            std::vector<ZG> v, w; int len = len_of(g, 12);
            for (int j = 0; j < len; j++) v.push_back(g.chance(1, 4) ? ZG::zero() : point(g, false));
            w = v; batch_to_special(w);
            bool sp = true; for (const ZG &p : w) sp = sp && p.is_special();
            Ev("batchspecial").raw("ps", jps(v, jg)).raw("v", jps(w, jg)).b("sp", sp);
        }
    }
    close_trace();
}
