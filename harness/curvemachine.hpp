// Driver for the register machine of spec/CurveMachine.tla.
#pragma once
#include "curveio.hpp"
namespace vt {
template<class G> struct CM {
    std::vector<G> r;
    int n;
    Rng &g;
    CM(int n_, Rng &g_) : r(n_ + 1, G::zero()), n(n_), g(g_) { Begin b; b.str("group", C<G>::name()).i("n", n); }
    void res(Ev &e, int d, int a = 0, int b = 0) { e.i("d", d); if (a) e.i("a", a); if (b) e.i("b", b); e.raw("v", js(r[d])).b("wf", r[d].is_well_formed()); }
    void op(const char *o, int d, int a = 0, int b = 0) { Ev e(o); res(e, d, a, b); }
    void load(int d, const G &p) { r[d] = p; op("load", d); }
    void add(int d, int a, int b) { r[d] = r[a] + r[b]; op("add", d, a, b); }
    // add() of the Edwards curves is only for points that are not the identity
    void addm(int d, int a, int b) { if (C<G>::prime_order_only && (r[a].is_zero() || r[b].is_zero())) return; r[d] = r[a].add(r[b]); op("add", d, a, b); }
    void madd(int d, int a, int b) { r[b].to_special(); { Ev e("special"); res(e, b); e.b("sp", r[b].is_special()); } r[d] = r[a].mixed_add(r[b]); op("add", d, a, b); }
    void sub(int d, int a, int b) { r[d] = r[a] - r[b]; op("sub", d, a, b); }
    void dbl(int d, int a) { r[d] = r[a].dbl(); op("dbl", d, a); }
    void neg(int d, int a) { r[d] = -r[a]; op("neg", d, a); }
    void copy(int d, int a) { r[d] = r[a]; op("copy", d, a); }
    void zero(int d) { r[d] = G::zero(); op("zero", d); }
    void one(int d) { r[d] = G::one(); op("one", d); }
    void special(int d) { r[d].to_special(); Ev e("special"); res(e, d); e.b("sp", r[d].is_special()); }
    void scale(int d) { rescale(r[d], some_scale<typename C<G>::F>(g)); op("scale", d); }
    void eq(int a, int b) { Ev("eq").i("a", a).i("b", b).b("r", r[a] == r[b]).b("ne", r[a] != r[b]); }
    void iszero(int a) { Ev("iszero").i("a", a).b("r", r[a].is_zero()); }
    template<mp_size_t m> void mulb(int d, int a, const bigint<m> &k) { r[d] = k * r[a]; Ev e("mul"); e.raw("k", jz(zof(k))); res(e, d, a); }
    template<mp_size_t m> void mulsm(int d, int a, const bigint<m> &k) { r[d] = scalar_mul<G, m>(r[a], k); Ev e("mul"); e.raw("k", jz(zof(k))); res(e, d, a); }
    void mulf(int d, int a, const typename G::scalar_field &k) { r[d] = k * r[a]; Ev e("mul"); e.raw("k", K<typename G::scalar_field>::js(k)); res(e, d, a); }
    void dump() { std::string s = "["; for (int i = 1; i <= n; i++) { if (i > 1) s += ","; s += js(r[i]); } Ev("dump").raw("v", s + "]"); }
    int R() { return 1 + (int)g.below(n); }
};
} // namespace vt
