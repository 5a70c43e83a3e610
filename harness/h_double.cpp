// The floating-point complex numbers: h_double TRACE.
#include "vt.hpp"
#include <libff/common/double.hpp>
#include <libff/algebra/field_utils/field_utils.hpp>
#include <cmath>
using namespace vt;
typedef libff::Double D;
typedef std::string S;
#ifdef PROFILE_OP_COUNTS
static const bool COUNTING = true;
#else
static const bool COUNTING = false;
#endif
static S jd(double x) {
    int e = 0; bool neg = std::signbit(x);
    if (!std::isfinite(x)) x = 0;
    double m = std::ldexp(std::frexp(std::fabs(x), &e), 53);
    uint64_t w = (uint64_t)m; e -= 53;
    while (w && !(w & 1)) { w >>= 1; e++; }
    if (!w) { e = 0; neg = false; }
    return S("{\"n\":") + (neg ? "true" : "false") + ",\"m\":" + ju64(w) + ",\"e\":" + std::to_string(e) + "}";
}
static S jc(const D &x) { return "{\"re\":" + jd(x.val.real()) + ",\"im\":" + jd(x.val.imag()) + "}"; }
static bool finite(const D &x) { return std::isfinite(x.val.real()) && std::isfinite(x.val.imag()); }

struct M {
    Rng &g; D r[5]; unsigned c0[4]; bool ok = true;
    explicit M(Rng &g_) : g(g_) { Begin b; b.b("counting", COUNTING); c0[0] = D::add_cnt; c0[1] = D::sub_cnt; c0[2] = D::mul_cnt; c0[3] = D::inv_cnt; }
    void put(Ev &e, int d) {
        e.i("d", d).raw("v", jc(r[d]));
        ok = finite(r[d]); e.b("finite", ok);         // what is not finite is no result of anything done here
        if (COUNTING) { e.raw("cnt", "{\"add\":" + std::to_string(D::add_cnt - c0[0]) + ",\"sub\":" + std::to_string(D::sub_cnt - c0[1]) + ",\"mul\":" + std::to_string(D::mul_cnt - c0[2]) + ",\"inv\":" + std::to_string(D::inv_cnt - c0[3]) + "}"); }
    }
    void set(int d, D v) { r[d] = v; Ev e("set"); put(e, d); }
    double num() {
        switch (g.below(7)) {
            case 0: return (double)g.below(5) - 2; case 1: return (double)g.below(2001) - 1000; case 2: return (double)g.below(1 << 20) / 1024.;
            case 3: return std::ldexp((double)(int64_t)(g.next() >> 11), -40 - (int)g.below(20)); case 4: return -std::ldexp((double)(g.next() >> 11), -50);
            case 5: return 0; default: return std::ldexp(1.0, (int)g.below(40) - 20); }
    }
    D fresh() { switch (g.below(4)) { case 0: return D(num()); case 1: return D(0, num()); case 2: return D(std::complex<double>(num(), num())); default: return D(num(), num()); } }
    double size(int i) { return std::abs(r[i].val); }
    void binary(int d, int a, int b, int k) {
        static const char *n[] = {"add", "sub", "mul"};
        bool in_place = g.below(2) && d == a;
        if (in_place) { if (k == 0) r[d] += r[b]; else if (k == 1) r[d] -= r[b]; else r[d] *= r[b]; }
        else r[d] = k == 0 ? r[a] + r[b] : k == 1 ? r[a] - r[b] : r[a] * r[b];
        Ev e(n[k]); e.i("a", a).i("b", b); put(e, d);
    }
    void pow(int d, int a, unsigned long k) { r[d] = g.below(2) ? r[a] ^ (size_t)k : r[a] ^ libff::bigint<1>(k); Ev e("pow"); e.i("a", a).i("k", (long)k); put(e, d); }
    void compare(int a, int b) { Ev("compare").i("a", a).i("b", b).b("eq", r[a] == r[b]).b("ne", r[a] != r[b]).b("lt", r[a] < r[b]).b("gt", r[a] > r[b]); }
    void toint(int a) { if (r[a].val.real() >= 0 && r[a].val.real() < 1e18) { mpz_t z; mpz_init(z); r[a].as_bigint().to_mpz(z); Ev("int").i("a", a).raw("big", ju64(mpz_get_ui(z))).raw("ulong", ju64(r[a].as_ulong())); mpz_clear(z); } }
    void konst(int d, const char *k, D v) { r[d] = v; Ev e("const"); e.str("k", k); put(e, d); }
    void step() {
        int a = 1 + g.below(4), b = 1 + g.below(4), d = g.below(3) ? 1 + (int)g.below(4) : a;
        switch (g.below(14)) {
            case 0: case 1: set(d, fresh()); break;
            case 2: case 3: binary(d, a, b, 0); break;
            case 4: case 5: binary(d, a, b, 1); break;
            case 6: case 7: if (size(a) < 1e6 && size(b) < 1e6) binary(d, a, b, 2); break;
            case 8: { r[d] = -r[a]; Ev e("neg"); e.i("a", a); put(e, d); break; }
            case 9: if (size(a) > 1e-6 && size(a) < 1e8) { r[d] = r[a].inverse(); Ev e("inverse"); e.i("a", a); put(e, d); } break;
            case 10: if (size(a) < 1e6) { r[d] = r[a].squared(); Ev e("squared"); e.i("a", a); put(e, d); } break;
            case 11: { unsigned long k = g.below(9); if (size(a) < 100 && (size(a) > 0.01 || size(a) == 0)) pow(d, a, k); break; }
            case 12: {  // nearly equal
                static const double ds[] = {0, 1e-7, -4e-7, 3e-6, -2.5e-6, 1e-3, 1};
                if (size(a) < 1000) set(d, D(r[a].val.real() + ds[g.below(7)], r[a].val.imag() + ds[g.below(7)]));
                compare(a, d); compare(d, a); break; }
            default: compare(a, b); toint(a); }
    }
};
int main(int, char **argv) {
    open_trace(argv[1]);
    Rng g(seed() * 7 + 1);
    for (int k = 0; k < 4; k++) { g.next(); TASK(for (int t = 0; t < N(15, 375); t++) { M m(g); for (int i = 1; i <= 4; i++) m.set(i, m.fresh()); for (int i = 0; i < 40 && m.ok; i++) m.step(); }); }
    TASK(M m(g);
      m.konst(1, "zero", D::zero()); m.konst(2, "one", D::one()); m.konst(3, "default", D()); m.konst(4, "geometric", D::geometric_generator()); m.konst(4, "arithmetic", D::arithmetic_generator());
      for (int i = 0; i < N(50, 500); i++) { m.r[4] = D::random_element(); Ev e("random"); m.put(e, 4); });
    TASK(for (double v : {0., 1., 2., -3., 0.5}) for (unsigned long k = 0; k < 12; k++) for (int i = 0; i < 4; i++) { M m(g); m.set(1, D(v, i == 3 ? v : 0)); m.pow(2, 1, k); });
    TASK(M m(g);
      for (long n = 1; n <= 32; n++) { m.r[1] = libff::get_root_of_unity<D>(n); Ev e("root"); e.i("n", n); m.put(e, 1); }
      for (long n = 64; n <= (1l << 20); n *= 2) { m.r[1] = libff::get_root_of_unity<D>(n); Ev e("root"); e.i("n", n); m.put(e, 1); });
    close_trace();
}
