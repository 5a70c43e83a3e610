// Drivers of the exponentiation templates, generic in the group T, in the way
// a point is printed and in the scalar type.
#pragma once
#include "fieldio.hpp"
#include <libff/algebra/field_utils/field_utils.hpp>
#include <libff/algebra/scalar_multiplication/multiexp.hpp>
#include <libff/algebra/scalar_multiplication/wnaf.hpp>
#include <libff/common/profiling.hpp>
namespace vt {
using namespace libff;
// distinct results of one computation, each with the first way it came about
struct Results {
    std::vector<std::string> seen; std::string s = "["; int n = 0;
    void add(const std::string &how, const std::string &v) {
        if (std::find(seen.begin(), seen.end(), v) != seen.end()) return;
        seen.push_back(v);
        if (n++) s += ","; s += "{\"how\":\"" + how + "\",\"v\":" + v + "}";
    }
    std::string json() const { return s + "]"; }
};
// scalars of n words, any bit pattern
template<mp_size_t n> struct Sc {
    static const mp_size_t num_limbs = n;
    bigint<n> v;
    Sc() {}
    explicit Sc(const Z &z) : v(bof<n>(z % pow2(64 * n))) {}
    bigint<n> as_bigint() const { return v; }
    static Sc zero() { return Sc(Z(0)); }
    static Sc one() { return Sc(Z(1)); }
    bool operator==(const Sc &o) const { return v == o.v; }
    bool operator!=(const Sc &o) const { return !(v == o.v); }
    bool is_zero() const { return v.is_zero(); }
    Sc operator*(const Sc &o) const { return Sc(zof(v) * zof(o.v)); }
    static Z modulus() { return pow2(64 * n); }
};
inline Z scalar_pattern(Rng &g, int n) {
    switch (g.below(10)) {
    case 0: return Z((int)g.below(20));
    case 1: return pow2(g.below(64 * n));
    case 2: return pow2(1 + g.below(64 * n)) - Z(1);
    case 3: case 4: return limb_pattern(g, n);
    case 5: return pow2(64 * n) - Z(1) - Z((int)g.below(70));
    case 6: case 7: return zrand(g, pow2(64 * n));
    case 8: { Z z = zrand(g, pow2(1 + g.below(64 * n))); return z; }
    default: { Z r; for (int i = 0; i < 64 * n; i++) if (g.chance(1, 2) == (i / 7 % 2 == 0)) mpz_setbit(r.v, i); return r; }
    }
}
template<mp_size_t n> void wnaf_event(size_t w, const Z &k) {
    std::vector<long> d = find_wnaf(w, bof<n>(k));
    Ev("wnaf").raw("k", jz(k)).i("w", (long)w).raw("ds", jints(d)).i("limbs", n);
}
template<class T, class S, class P> void msm_all(const std::vector<T> &ps, const std::vector<S> &ks, const std::vector<size_t> &chunks, P js, Results &r) {
    for (size_t c : chunks) {
        std::string t = "/" + std::to_string(c);
        r.add("naive" + t, js(multi_exp<T, S, multi_exp_method_naive>(ps.begin(), ps.end(), ks.begin(), ks.end(), c)));
        r.add("plain" + t, js(multi_exp<T, S, multi_exp_method_naive_plain>(ps.begin(), ps.end(), ks.begin(), ks.end(), c)));
        r.add("BosCoster" + t, js(multi_exp<T, S, multi_exp_method_bos_coster>(ps.begin(), ps.end(), ks.begin(), ks.end(), c)));
        r.add("BDLO12" + t, js(multi_exp<T, S, multi_exp_method_BDLO12>(ps.begin(), ps.end(), ks.begin(), ks.end(), c)));
        r.add("mixed naive" + t, js(multi_exp_with_mixed_addition<T, S, multi_exp_method_naive>(ps.begin(), ps.end(), ks.begin(), ks.end(), c)));
        r.add("mixed plain" + t, js(multi_exp_with_mixed_addition<T, S, multi_exp_method_naive_plain>(ps.begin(), ps.end(), ks.begin(), ks.end(), c)));
        r.add("mixed BosCoster" + t, js(multi_exp_with_mixed_addition<T, S, multi_exp_method_bos_coster>(ps.begin(), ps.end(), ks.begin(), ks.end(), c)));
        r.add("mixed BDLO12" + t, js(multi_exp_with_mixed_addition<T, S, multi_exp_method_BDLO12>(ps.begin(), ps.end(), ks.begin(), ks.end(), c)));
    }
}
template<class S> std::string jks(const std::vector<S> &ks) { return jlist(ks, [](const S &k) { return jz(zof(k.as_bigint())); }); }
template<class T, class P> std::string jps(const std::vector<T> &ps, P js) { return jlist(ps, js); }
template<class T, class S, class P> void msm_event(const std::vector<T> &ps, const std::vector<S> &ks, const std::vector<size_t> &chunks, P js) {
    Results r; msm_all<T, S>(ps, ks, chunks, js, r);
    Ev("msm").raw("ks", jks(ks)).raw("ps", jps(ps, js)).raw("vs", r.json());
}
// one base, many scalars through a window table
template<class T, class S, class P> void fixed_event(const T &base, size_t size, size_t w, const std::vector<S> &ks, const S *coeff, const Z &n, P js) {
    const window_table<T> tab = get_window_table<T>(size, w, base);
    Results r;
    if (!coeff) {
        std::vector<T> one; for (const S &k : ks) one.push_back(windowed_exp<T, S>(size, w, tab, k));
        r.add("windowed_exp", jps(one, js));
        r.add("batch_exp", jps(batch_exp<T, S>(size, w, tab, ks), js));
    } else r.add("batch_exp_with_coeff", jps(batch_exp_with_coeff<T, S>(size, w, tab, *coeff, ks), js));
    Ev e("fixed"); e.raw("p", js(base)).raw("ks", jks(ks)).i("size", (long)size).i("w", (long)w).raw("vs", r.json());
    if (coeff) e.raw("coeff", jz(zof(coeff->as_bigint()))).raw("n", jz(n));
}
} // namespace vt
