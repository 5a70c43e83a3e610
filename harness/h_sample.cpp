// Sampled elements and hash-derived elements: h_sample TRACE fields|points|hash.
#include "curvemachine.hpp"
#include <dlfcn.h>
#include <random>
#include <libff/common/rng.hpp>
#include <libff/common/utils.hpp>
using namespace vt;

// ------------------------------------------------------- the source of entropy
// Every word the library draws comes from here: the system's device, a fixed
// pseudo-random sequence, or chosen words followed by the sequence.
struct Device {
    bool real = false; Rng g{seed() * 31 + 7}; std::vector<uint32_t> q; size_t at = 0;
    unsigned int get(std::random_device *self) {
        if (real) {
            typedef unsigned int (*fn)(std::random_device *);
            static fn f = (fn)dlsym(RTLD_NEXT, "_ZNSt13random_device9_M_getvalEv");
            return f(self);
        }
        if (at < q.size()) return q[at++];
        return (uint32_t)g.next();
    }
    void play(const std::vector<Z> &cands, int limbs) {
        q.clear(); at = 0;
        for (const Z &c : cands) { std::vector<uint64_t> d(limbs); to_limbs(c % pow2(64 * limbs), d.data(), limbs); for (uint64_t w : d) { q.push_back((uint32_t)w); q.push_back((uint32_t)(w >> 32)); } }
    }
};
static Device &dev() { static Device *d = new Device; return *d; }
unsigned int std::random_device::_M_getval() { return dev().get(this); }
extern "C" void randombytes_buf(void *const buf, const size_t size) {
    for (size_t i = 0; i < size; i += 4) { uint32_t w = dev().real ? std::random_device()() : dev().get(nullptr); memcpy((char *)buf + i, &w, std::min<size_t>(4, size - i)); }
}

// ------------------------------------------------------------ internal numbers
template<class F> struct Raw { static void get(const F &x, std::vector<Z> &o) { o.push_back(K<F>::num(x)); } };
template<mp_size_t n, const bigint<n> &m> struct Raw<Fp_model<n, m>> { static void get(const Fp_model<n, m> &x, std::vector<Z> &o) { o.push_back(zof(x.mont_repr)); } };
template<class F> void raw2(const F &x, std::vector<Z> &o) { Raw<typename std::decay<decltype(x.c0)>::type>::get(x.c0, o); Raw<typename std::decay<decltype(x.c1)>::type>::get(x.c1, o); }
template<class F> void raw3(const F &x, std::vector<Z> &o) { raw2(x, o); Raw<typename std::decay<decltype(x.c2)>::type>::get(x.c2, o); }
#define RAW(M, f) template<mp_size_t n, const bigint<n> &m> struct Raw<M<n, m>> { static void get(const M<n, m> &x, std::vector<Z> &o) { f(x, o); } };
RAW(Fp2_model, raw2) RAW(Fp3_model, raw3) RAW(Fp4_model, raw2) RAW(Fp6_2over3_model, raw2) RAW(Fp6_3over2_model, raw3) RAW(Fp12_2over3over2_model, raw2)
template<mp_size_t n> struct Raw<bigint<n>> { static void get(const bigint<n> &x, std::vector<Z> &o) { o.push_back(zof(x)); } };
namespace vt { template<mp_size_t n> struct K<bigint<n>> { static const mp_size_t limbs = n; static const int deg = 1; static Z p() { return pow2(64 * n); } static std::string js(const bigint<n> &b) { return jz(zof(b)); } static bool canon(const bigint<n> &) { return true; } }; }
template<class F> struct Draw { static F el() { return F::random_element(); } };
template<mp_size_t n> struct Draw<bigint<n>> { static bigint<n> el() { bigint<n> b; b.randomize(); return b; } };

template<class F> void batch(int count, bool adversarial, bool again) {
    std::vector<F> xs;
    for (int i = 0; i < count; i++) { if (i % 2) { F x = Draw<F>::el(); x.randomize(); xs.push_back(x); } else xs.push_back(Draw<F>::el()); }
    Ev e("samples"); e.b("again", again).b("chosen", adversarial);
    e.raw("vs", jlist(xs, [](const F &x) { return K<F>::js(x); }));
    e.raw("cs", jlist(xs, [](const F &x) { return std::string(K<F>::canon(x) ? "true" : "false"); }));
    e.raw("ms", jlist(xs, [](const F &x) { std::vector<Z> o; Raw<F>::get(x, o); return jlist(o, [](const Z &z) { return jz(z); }); }));
}
// the selective samplers, offered what they must not return
template<class F> void pick(const char *kind, const F &not_, F (*f)(const F &)) {
    std::vector<Z> c;
    for (const F &x : {F::zero(), F::one(), not_, F::zero(), not_, F::one(), -F::one()}) Raw<F>::get(x, c);
    dev().play(c, K<F>::limbs);
    for (int i = 0; i < 6; i++) { F x = f(not_); Ev("pick").str("kind", kind).raw("y", K<F>::js(not_)).raw("v", K<F>::js(x)).b("c", K<F>::canon(x)); }
}
template<class F> void picks() {
    for (int i = 0; i < N(2, 10); i++) {
        pick<F>("non_zero", F::random_element(), [](const F &) { return libff::random_element_non_zero<F>(); });
        pick<F>("non_zero_one", F::random_element(), [](const F &) { return libff::random_element_non_zero_one<F>(); });
        for (const F &y : {F::random_element(), F::zero(), F::one()}) pick<F>("exclude", y, [](const F &y) { return libff::random_element_exclude<F>(y); });
    }
    dev().q.clear();
}
template<mp_size_t n> void picks_(const bigint<n> *) {}
template<class F> void picks_(const F *) { picks<F>(); }
template<class F> void fields(const char *name, int bits_) {
    { Begin b; b.str("field", name).i("bits", bits_).i("limbs", K<F>::limbs); }
    dev().real = false; dev().q.clear();
    for (int i = 0; i < 10; i++) batch<F>(N(20, 60), false, false);
    Ev("covered");
    // candidates on the edge of the range before acceptable ones
    Rng g(seed() * 5 + K<F>::limbs);
    Z p = K<F>::p(), top = pow2(bits(p - Z(1)));
    for (int i = 0; i < N(6, 40); i++) {
        std::vector<Z> c;
        for (int k = 0; k < 9; k++) switch (g.below(9)) {
            case 0: c.push_back(p); break;
            case 1: c.push_back(p + Z(1)); break;
            case 2: c.push_back(p - Z(1)); break;
            case 3: c.push_back(top - Z(1)); break;
            case 4: c.push_back(Z(0)); break;
            case 5: c.push_back(p + pow2(64 * g.below(K<F>::limbs))); break;
            case 6: c.push_back(pow2(64 * K<F>::limbs) - Z(1)); break;
            case 7: c.push_back(top + zrand(g, p)); break;
            default: c.push_back(p - Z(1) - zrand(g, pow2(64))); }
        if (i < 6) c[0] = i == 0 ? p : i == 1 ? p + Z(1) : i == 2 ? top - Z(1) : i == 3 ? p - Z(1) : i == 4 ? top + p : p + pow2(64 * (K<F>::limbs - 1));
        dev().play(c, K<F>::limbs);
        batch<F>(2, true, false);
    }
    dev().q.clear();
    picks_((F *)0);
    dev().real = true;
    batch<F>(N(8, 60), false, true);
    dev().real = false;
}
template<class G> void points() {
    Rng g(seed());
    for (int round = 0; round < 3; round++) {
        int n = N(8, 40);
        CM<G> m(n, g);
        dev().q.clear(); dev().real = round == 1;
        typedef typename G::scalar_field Fr;
        if (round == 2) dev().play({Z(0), pow2(64 * Fr::num_limbs) - Z(1), K<Fr>::p(), K<Fr>::p() - Z(1)}, Fr::num_limbs);
        for (int i = 1; i <= n; i++) { m.r[i] = G::random_element(); m.op("sample", i); }
        if (round < 2) Ev("distinct");
    }
}
template<class F> void hashed(const char *name) {
    { Begin b; b.str("field", name).i("bits", 0).i("limbs", K<F>::limbs); }
    Rng g(seed() * 77);
    auto h = [](uint64_t i) { F x = SHA512_rng<F>(i); Ev("hash").raw("i", ju64(i)).raw("v", K<F>::js(x)).b("c", K<F>::canon(x)); };
    for (uint64_t i = 0; i < (uint64_t)N(40, 600); i++) h(i);
    for (int k = 0; k < 64; k++) { h(1ull << k); h((1ull << k) - 1); }
    for (int i = 0; i < N(30, 400); i++) h(g.next());
}
int main(int, char **argv) {
    open_trace(argv[1]); init_all_curves();
    std::string mode = argv[2];
    using namespace libff;
#define D(T) fields<T>(#T, 0);
#define DB(T, b) fields<T>(#T, b);
    if (mode == "fields") { PRIME_FIELDS(D) EXT_FIELDS(D) BIN_FIELDS(D) DB(bigint<1>, 64) DB(bigint<3>, 192) DB(bigint<5>, 320) }
#define H(T) TASK(hashed<T>(#T));
    if (mode == "hash") { PRIME_FIELDS(H) }
#define P(T) points<T>();
    if (mode == "points") { ALL_GROUPS(P) }
    close_trace();
}
