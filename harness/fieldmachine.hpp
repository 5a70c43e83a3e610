// Driver for the register machine of spec/FieldMachine.tla.
#pragma once
#include "fieldio.hpp"

namespace vt {
template<class F> struct FM {
    std::vector<F> r;                 // registers 1..n  (r[0] unused)
    int n;
    Rng &g;
    FM(const std::string &desc_key, const std::string &desc, int n_, Rng &g_) : r(n_ + 1, F::zero()), n(n_), g(g_) {
        Begin b; b.raw(desc_key.c_str(), desc).i("n", n);
    }
    void res(const char *op, int d, int a = 0, int b = 0) { Ev e(op); fin(e, d, a, b); }
    void fin(Ev &e, int d, int a = 0, int b = 0) {
        e.i("d", d); if (a) e.i("a", a); if (b) e.i("b", b);
        e.raw("v", K<F>::js(r[d])).b("c", K<F>::canon(r[d]));
    }
    void load(int d, const F &x) { r[d] = x; res("load", d); }
    void loadz(int d, const Z &z) { // number -> element of degree-1 field, logged as the number itself
        r[d] = K<F>::make(&z); res("load", d);
    }
    void add(int d, int a, int b) { r[d] = r[a] + r[b]; res("add", d, a, b); }
    void sub(int d, int a, int b) { r[d] = r[a] - r[b]; res("sub", d, a, b); }
    void mul(int d, int a, int b) { r[d] = r[a] * r[b]; res("mul", d, a, b); }
    void iadd(int d, int b) { r[d] += r[b]; res("iadd", d, 0, b); }
    void isub(int d, int b) { r[d] -= r[b]; res("isub", d, 0, b); }
    void imul(int d, int b) { r[d] *= r[b]; res("imul", d, 0, b); }
    void neg(int d, int a) { r[d] = -r[a]; res("neg", d, a); }
    void sqr(int d, int a) { r[d] = r[a].squared(); res("sqr", d, a); }
    void isqr(int d) { r[d].square(); res("isqr", d); }
    void copy(int d, int a) { r[d] = r[a]; res("copy", d, a); }
    // three ways of making a zero
    static int zero_way() { static thread_local int k = 0; return k++ % 3; }
    void zero(int d) { int w = zero_way(); if (w == 1) r[d].clear(); else r[d] = w ? F() : F::zero(); res("zero", d); }
    void one(int d) { r[d] = F::one(); res("one", d); }
    void inv(int d, int a) { if (r[a].is_zero()) return; r[d] = r[a].inverse(); res("inv", d, a); }
    void iinv(int d) { if (r[d].is_zero()) return; r[d].invert(); res("iinv", d); }
    template<mp_size_t m> void pow(int d, int a, const bigint<m> &x) { r[d] = r[a] ^ x; Ev e("pow"); e.raw("e", jz(zof(x))); fin(e, d, a); }
    template<mp_size_t m> void ipow(int d, const bigint<m> &x) { r[d] ^= x; Ev e("ipow"); e.raw("e", jz(zof(x))); fin(e, d); }
    void powul(int d, int a, unsigned long x) { r[d] = r[a] ^ x; Ev e("pow"); e.raw("e", ju64(x)); fin(e, d, a); }
    void ipowul(int d, unsigned long x) { r[d] ^= x; Ev e("ipow"); e.raw("e", ju64(x)); fin(e, d); }
    void frob(int d, int a, unsigned long k) { r[d] = r[a].Frobenius_map(k); Ev e("frob"); e.i("k", (long)k); fin(e, d, a); }
    void sqrt(int d, int a) { r[d] = r[a].sqrt(); res("sqrt", d, a); }
    void eq(int a, int b) { Ev("eq").i("a", a).i("b", b).b("r", r[a] == r[b]).b("ne", r[a] != r[b]); }
    void iszero(int a) { Ev("iszero").i("a", a).b("r", r[a].is_zero()); }
    void dump() { std::string s = "["; for (int i = 1; i <= n; i++) { if (i > 1) s += ","; s += K<F>::js(r[i]); } Ev("dump").raw("v", s + "]"); }
    int R() { return 1 + (int)g.below(n); }
};
} // namespace vt
