// P30: what the printing functions write (spec/T_Print.tla).
#include "curveio.hpp"
#include "capture.hpp"
#include <libff/common/profiling.hpp>
#include <libff/common/utils.hpp>
#include <sstream>
#include <iostream>
using namespace vt;
typedef std::string S;
// numbers standing on their own: not part of a label and not an exponent
static S numbers(const S &t, int base) {
    auto dig = [&](char c) { return base == 10 ? isdigit((unsigned char)c) != 0 : isxdigit((unsigned char)c) != 0; };
    std::vector<S> r;
    for (size_t i = 0; i < t.size();) {
        if (dig(t[i]) && (i == 0 || (!isalnum((unsigned char)t[i - 1]) && t[i - 1] != '^'))) {
            size_t j = i; while (j < t.size() && dig(t[j])) j++;
            if (j == t.size() || !isalnum((unsigned char)t[j])) { Z z; mpz_set_str(z.v, t.substr(i, j - i).c_str(), base); r.push_back(jz(z)); }
            i = j;
        } else i++;
    }
    return jlist(r, [](const S &x) { return x; });
}
static S lines(const S &t, int base = 10) {
    std::vector<S> r; std::istringstream in(t); S x;
    while (std::getline(in, x)) {
        if (!x.empty() && x.back() == ':') continue;              // a heading
        bool o = x == "O";
        r.push_back(S("{\"o\":") + (o ? "true" : "false") + ",\"n\":" + (o ? "[]" : numbers(x, base)) + "}");
    }
    if (!t.empty() && t.back() != '\n') r.push_back("{\"o\":false,\"n\":[]}");  // a line not ended
    return jlist(r, [](const S &y) { return y; });
}
template<class F> void fields(const char *name, int salt, int base = 10) {
    Rng g(seed() * 611953 + salt);
    Begin();
    std::vector<F> v{F::zero(), F::one()};
    for (int i = 0; i < N(6, 60); i++) v.push_back(any<F>(g));
    for (const F &x : v) { S was = K<F>::js(x); x.print(); Ev("field").str("f", name).raw("x", was).raw("out", lines(taken(), base)).b("same", was == K<F>::js(x)); }
    for (int k = 0; k < N(2, 5); k++) {
        std::vector<F> w; for (int i = 0; i < k * 2; i++) w.push_back(any<F>(g));
        print_vector<F>(w);
        std::cout.flush(); S t = taken();
        Ev("vector").raw("items", jlist(w, [](const F &x) { std::ostringstream o; o << x; return jraw(o.str()); })).raw("bytes", jraw(t));
    }
}
template<mp_size_t n> void ints(Rng &g) {
    Begin();
    for (int i = 0; i < N(6, 60); i++) {
        Z z = i == 0 ? Z(0) : g.chance(1, 3) ? limb_pattern(g, n) : zrand(g, pow2(1 + g.below(64 * n)));
        bigint<n> b = bof<n>(z);
        b.print(); { Ev e("int"); e.raw("x", jz(z)).raw("out", lines(taken())).b("same", zof(b) == z); }
        b.print_hex(); { Ev e("int"); e.raw("x", jz(z)).raw("out", lines(taken(), 16)).b("same", zof(b) == z); }
    }
}
template<class G> void groups(int salt) {
    typedef typename C<G>::F F;
    Rng g(seed() * 7368787 + salt);
    Begin();
    for (int i = 0; i < N(9, 90); i++) {
        G p = i == 0 ? G::zero() : i == 1 ? G::one() : any_operand<G>(g);
        S x = K<F>::js(p.X), y = K<F>::js(p.Y), z = K<F>::js(p.Z);
        auto same = [&]() { return x == K<F>::js(p.X) && y == K<F>::js(p.Y) && z == K<F>::js(p.Z); };
        p.print();
        Ev("point").str("g", C<G>::name()).str("m", C<G>::model == JACOBIAN ? "jacobian" : C<G>::model == PROJECTIVE ? "projective" : "inverted")
            .raw("X", x).raw("Y", y).raw("Z", z).raw("out", lines(taken())).b("same", same());
        p.print_coordinates();
        Ev("coordinates").str("g", C<G>::name()).raw("X", x).raw("Y", y).raw("Z", z).raw("out", lines(taken())).b("same", same());
    }
}
// titles, and what the library says about its own build
#define YES(m) #m, (S(STR(m)) != #m)
#define STR(m) STR_(m)
#define STR_(m) #m
static void build_report() {
    Begin();
    for (const S &t : {S("one"), S("a longer title"), S("")}) { libff::print_header(t.c_str()); Ev("header").raw("title", jraw(t)).raw("bytes", jraw(taken())); }
    libff::print_separator(); Ev("header").raw("title", "[]").raw("bytes", jraw(taken()));
    libff::print_compilation_info(); S t = taken();
    auto said = [&](const S &k) { return t.find("\n" + k + ": yes\n") != S::npos ? "yes" : t.find("\n" + k + ": no\n") != S::npos ? "no" : "nothing"; };
    auto ask = [&](const char *k, bool is) { Ev("option").str("k", k).b("is", is).str("said", said(k)); };
    ask(YES(STATIC)); ask(YES(MULTICORE)); ask(YES(DEBUG)); ask(YES(PROFILE_OP_COUNTS)); ask(YES(_GLIBCXX_DEBUG));
}
int main(int, char **argv) {
    open_trace(argv[1]);
    init_all_curves();
    capture();
    build_report();
    int s = 0;
#define FIELD(T) fields<T>(#T, ++s);
    FIELD(alt_bn128_Fr) FIELD(alt_bn128_Fq) FIELD(alt_bn128_Fq2) FIELD(alt_bn128_Fq6) FIELD(alt_bn128_Fq12) FIELD(bls12_381_Fr) FIELD(bls12_381_Fq) FIELD(bls12_381_Fq2)
    FIELD(bls12_381_Fq6) FIELD(bls12_381_Fq12) FIELD(edwards_Fr) FIELD(edwards_Fq) FIELD(edwards_Fq3) FIELD(edwards_Fq6) FIELD(mnt4_Fr) FIELD(mnt4_Fq) FIELD(mnt4_Fq2) FIELD(mnt4_Fq4)
    FIELD(mnt6_Fr) FIELD(mnt6_Fq) FIELD(mnt6_Fq3) FIELD(mnt6_Fq6)
    fields<gf32>("gf32", ++s); fields<gf64>("gf64", ++s, 16); fields<gf128>("gf128", ++s, 16); fields<gf192>("gf192", ++s, 16); fields<gf256>("gf256", ++s, 16);
    Rng g(seed()); ints<1>(g); ints<2>(g); ints<3>(g); ints<4>(g); ints<5>(g); ints<6>(g); ints<12>(g);
#define GROUP(T) groups<T>(++s);
    ALL_GROUPS(GROUP)
    close_trace();
}
