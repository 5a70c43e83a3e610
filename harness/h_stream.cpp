// P13: serialization of field elements and of containers.
#include "streamio.hpp"
#include "curves_fields.hpp"
#include <libff/algebra/field_utils/field_utils.hpp>
#include <gmpxx.h>
using namespace vt;
typedef std::string S;

template<class F> std::function<S(const F &)> JF() { return [](const F &x) { return K<F>::js(x); }; }
template<class F> std::vector<F> anyvec(Rng &g, int most) { std::vector<F> v; for (int i = (int)g.below(most + 1); i > 0; i--) v.push_back(any<F>(g)); return v; }
template<class F> S jv(const std::vector<F> &v) { return jlist(v, [](const F &x) { return K<F>::js(x); }); }
template<class F> S jvv(const std::vector<std::vector<F>> &v) { return jlist(v, [](const std::vector<F> &x) { return jv(x); }); }

template<class F> void write_one(Prog &p, Rng &g, const S &name, const std::vector<F> &pool, int kind = -1, int size = -1) {
    auto len = [&](int n) { return size >= 0 ? size : n == 4 ? (int)g.below(4) : len_of(g, n); };
    auto pick1 = [&]() { return !pool.empty() && g.chance(1, 3) ? pool[g.below(pool.size())] : any<F>(g); };
    switch (kind >= 0 ? kind : (int)g.below(9)) {
    default: {
        F x = pick1();
        p.write(name, x, [](const F &v) { return K<F>::js(v); }, [&g]() { return any<F>(g); }, true); break; }
    case 4: case 5: {
        std::vector<F> v; for (int i = len(5); i > 0; i--) v.push_back(pick1());
        p.write("vec " + name, v, [](const std::vector<F> &x) { return jv(x); }, [&g]() { return anyvec<F>(g, 3); }, g.chance(1, 2)); break; }
    case 6: {
        std::vector<std::vector<F>> v; for (int i = len(4); i > 0; i--) { v.push_back({}); for (int k = (int)g.below(3); k > 0; k--) v.back().push_back(pick1()); }
        p.write("vecvec " + name, v, [](const std::vector<std::vector<F>> &x) { return jvv(x); }, [&g]() { return std::vector<std::vector<F>>(g.below(3), anyvec<F>(g, 2)); }, g.chance(1, 2)); break; }
    case 7: {
        std::map<size_t, F> m; for (int i = len(5); i > 0; i--) { size_t k = g.chance(1, 2) ? g.below(20) : g.next(); F x = pick1(); m[k] = x; }
        p.write("map " + name, m, [](const std::map<size_t, F> &x) { return jlist(x, [](const std::pair<const size_t, F> &e) { return "[" + ju64(e.first) + "," + K<F>::js(e.second) + "]"; }); },
                [&g]() { std::map<size_t, F> d; if (g.chance(1, 2)) { F x = any<F>(g); d[g.below(20)] = x; }; return d; }, g.chance(1, 2)); break; }
    case 8: {
        std::map<size_t, std::vector<F>> m; for (int i = len(4); i > 0; i--) { auto &v = m[g.below(9)]; v.clear(); for (int k = (int)g.below(3); k > 0; k--) v.push_back(pick1()); }
        p.write("mapvec " + name, m, [](const std::map<size_t, std::vector<F>> &x) { return jlist(x, [](const std::pair<const size_t, std::vector<F>> &e) { return "[" + ju64(e.first) + "," + jv(e.second) + "]"; }); },
                [&g]() { std::map<size_t, std::vector<F>> d; if (g.chance(1, 2)) { auto x = anyvec<F>(g, 2); d[g.below(20)] = x; }; return d; }, g.chance(1, 2)); break; }
    }
}
template<mp_size_t n> bigint<n> anybig(Rng &g) { return bof<n>(g.chance(1, 3) ? limb_pattern(g, n) : zrand(g, pow2(1 + g.below(64 * n)))); }
template<mp_size_t n> void write_big(Prog &p, Rng &g) {
    S nm = "bigint" + std::to_string((int)n);
    auto J = [](const bigint<n> &b) { return jz(zof(b)); };
    bigint<n> b = anybig<n>(g);
    switch (g.below(4)) {
    default: p.write(nm, b, J, [&g]() { return anybig<n>(g); }, true); break;
    case 2: { std::vector<bigint<n>> v; for (int i = len_of(g, 4); i > 0; i--) v.push_back(anybig<n>(g));
        p.write("vec " + nm, v, [J](const std::vector<bigint<n>> &x) { return jlist(x, J); }, [&g]() { return std::vector<bigint<n>>(g.below(2), anybig<n>(g)); }, g.chance(1, 2)); break; }
    case 3: { std::vector<bigint<n>> v; v.push_back(b); v.push_back(anybig<n>(g));
        p.write("vec " + nm, v, [J](const std::vector<bigint<n>> &x) { return jlist(x, J); }, []() { return std::vector<bigint<n>>(); }, false); break; }
    }
}
#if !defined PART || PART == 0
void write_misc(Prog &p, Rng &g) {
    auto JB = [](const std::vector<bool> &v) { return jlist(std::vector<int>(v.begin(), v.end()), [](int x) { return S(x ? "true" : "false"); }); };
    switch (g.below(5)) {
    case 0: p.write_with("bool", (bool)g.below(2), [](std::ostream &o, const bool &b) { output_bool(o, b); }, [](std::istream &i, bool &b) { input_bool(i, b); },
                         [](const bool &b) { return S(b ? "true" : "false"); }, [&g]() { return (bool)g.below(2); }, false); break;
    case 1: { std::vector<bool> v(len_of(g, 20)); for (size_t i = 0; i < v.size(); i++) v[i] = g.below(2);
        p.write_with("bools", v, [](std::ostream &o, const std::vector<bool> &b) { output_bool_vector(o, b); }, [](std::istream &i, std::vector<bool> &b) { input_bool_vector(i, b); },
                     JB, [&g]() { return std::vector<bool>(g.below(30), true); }, false); break; }
    case 2: { std::map<size_t, size_t> m; for (int i = len_of(g, 5); i > 0; i--) { size_t k = g.below(50), x = g.chance(1, 2) ? g.next() : g.below(9); m[k] = x; }
        p.write("mapint", m, [](const std::map<size_t, size_t> &x) { return jlist(x, [](const std::pair<const size_t, size_t> &e) { return "[" + ju64(e.first) + "," + ju64(e.second) + "]"; }); },
                [&g]() { std::map<size_t, size_t> d; d[g.below(50)] = 1; return d; }, false); break; }
    case 3: { std::set<size_t> s; for (int i = len_of(g, 6); i > 0; i--) s.insert(g.chance(1, 2) ? g.next() : g.below(9));
        p.write("setint", s, [](const std::set<size_t> &x) { return jlist(x, [](size_t e) { return ju64(e); }); }, [&g]() { std::set<size_t> d; d.insert(g.below(50)); return d; }, false); break; }
    default: write_big<4>(p, g);
    }
}
#else
void write_misc(Prog &p, Rng &g);
#endif
template<class F> void drive(const S &name, int salt) {
    Rng g(seed() * 2654435761u + salt);
    for (int k = 0; k < N(4, 40); k++) {
        Prog p(g);
        std::vector<F> pool; for (int i = 0; i < 3; i++) pool.push_back(any<F>(g));
        if (k == 0) { pool = {F::zero(), F::one(), -F::one()}; }
        for (int i = 0; i < 16; i++) {
            if (g.chance(1, 4)) write_misc(p, g); else write_one<F>(p, g, name, pool);
            while (g.chance(2, 5)) p.read();
        }
        // every kind of container, empty, with one element, with two
        if (k < 3) for (int kind = 5; kind <= 8; kind++) { write_one<F>(p, g, name, pool, kind, k); if (g.chance(1, 2)) p.read(); }
        p.finish();
        for (int i = 0; i < 3; i++) { F x = any<F>(g), y = reserialize<F>(x); Ev("cycle").raw("v", K<F>::js(x)).raw("r", K<F>::js(y)); }
        { std::vector<F> x = anyvec<F>(g, 3), y = reserialize<std::vector<F>>(x); Ev("cycle").raw("v", jv(x)).raw("r", jv(y)); }
    }
    // many single elements: every one next to values that a mis-sized reader would swallow
    for (int k = 0; k < N(2, 30); k++) {
        Prog p(g, k % 2 == 0);
        for (int i = 0; i < 24; i++) { F x = any<F>(g); p.write(name, x, [](const F &v) { return K<F>::js(v); }, [&g]() { return any<F>(g); }, true); }
        p.finish();
    }
}
// the kinds of fields can be compiled apart, with -DPART=1, 2, 3; -DPART=0 is the rest
#define D(T) { ++s; TASK(drive<libff::T>(#T, s)); }
#if !defined PART || PART == 1
void drive_prime(int s) { PRIME_FIELDS(D) }
#endif
#if !defined PART || PART == 2
void drive_ext(int s) { EXT_FIELDS(D) }
#endif
#if !defined PART || PART == 3
void drive_bin(int s) { BIN_FIELDS(D) }
#endif
#if !defined PART || PART == 0
void drive_prime(int s); void drive_ext(int s); void drive_bin(int s);
int main(int, char **argv) {
    open_trace(argv[1]);
    init_all_fields();
    drive_prime(0); drive_ext(1000); drive_bin(2000);
    Rng g(seed() * 31 + 5);
    for (int k = 0; k < N(6, 60); k++) {
        Prog p(g);
        for (int i = 0; i < 20; i++) {
            switch (g.below(8)) { case 0: write_big<1>(p, g); break; case 1: write_big<2>(p, g); break; case 2: write_big<3>(p, g); break; case 3: write_big<5>(p, g); break; case 4: write_big<6>(p, g); break; default: write_misc(p, g); }
            while (g.chance(2, 5)) p.read();
        }
        p.finish();
    }
    close_trace();
}
#endif
