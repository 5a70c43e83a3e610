// Integer utilities, bigints, roots of unity, packing: h_util TRACE MODE.
#include "fieldio.hpp"
#include "curves_fields.hpp"
#include <libff/algebra/field_utils/field_utils.hpp>
#include <libff/common/utils.hpp>
#include <sstream>
using namespace vt;
typedef std::string S;
#ifdef MONTGOMERY_OUTPUT
static const bool MONT = true;
#else
static const bool MONT = false;
#endif

static S jbits(const std::vector<bool> &v) { S s = "["; for (size_t i = 0; i < v.size(); i++) { if (i) s += ","; s += v[i] ? "1" : "0"; } return s + "]"; }
static S jwords(const std::vector<uint64_t> &v) { return jlist(v, [](uint64_t w) { return ju64(w); }); }
static S jwords(const std::vector<size_t> &v, int) { return jlist(v, [](uint64_t w) { return ju64(w); }); }
struct Seg { explicit Seg(int w = 1) { Begin b; b.i("w", w).b("mont", MONT); } };
struct Call : Ev { explicit Call(const char *f) : Ev("call") { str("f", f); } };

static uint64_t special64(Rng &g) {
    switch (g.below(6)) { case 0: return 1ull << g.below(64); case 1: return (1ull << g.below(64)) - 1; case 2: return (1ull << g.below(64)) + 1;
        case 3: return g.below(64); case 4: return ~g.below(64); default: { uint64_t x = g.next(); return x >> g.below(64); } }
}

// ---------------------------------------------------------------- utilities
static void t_log(uint64_t n) {
    Call("log2").raw("n", ju64(n)).i("r", (long)libff::log2(n));
    Call("ispow2").raw("n", ju64(n)).b("r", libff::is_power_of_2(n));
    if (n >= 1 && n <= (1ull << 63)) Call("pow2").raw("n", ju64(n)).raw("r", ju64(libff::get_power_of_two(n)));
    if (n <= (1ull << 63)) Call("roundpow2").raw("n", ju64(n)).raw("r", ju64(libff::round_to_next_power_of_2(n)));
}
static void t_twos(long i, int w) {
    size_t e = libff::to_twos_complement((int)i, w);
    Call("totwos").b("neg", i < 0).raw("mag", ju64(i < 0 ? -(uint64_t)i : i)).i("w", w).raw("r", ju64(e));
}
static void f_twos(uint64_t i, int w) {
    long r = libff::from_twos_complement(i, w);
    Call("fromtwos").raw("i", ju64(i)).i("w", w).b("neg", r < 0).raw("mag", ju64(r < 0 ? -(uint64_t)r : r));
}
static void t_rev(uint64_t n, int l) { Call("bitrev").raw("n", ju64(n)).i("k", l).raw("r", ju64(libff::bitreverse(n, l))); }
static void t_div(long long x, long long y) {
    Call c("divceil"); c.raw("x", ju64(x)).raw("y", ju64(y));
    try { c.raw("r", ju64(libff::div_ceil(x, y))); } catch (const std::invalid_argument &) { c.str("threw", "invalid_argument"); } catch (...) { c.str("threw", "other"); }
}
static S jstr(const S &s) { S r = "["; for (size_t i = 0; i < s.size(); i++) { if (i) r += ","; r += std::to_string((unsigned char)s[i]); } return r + "]"; }
static void formats(Rng &g) {
    Seg s;
    for (int i = 0; i < N(30, 300); i++) {
        S prefix(g.below(400), 'p'), word(g.below(5) ? g.below(60) : 150, 'w'); int n = (int)g.next(); unsigned long u = special64(g);
        for (char &c : prefix) c = (char)('!' + g.below(90));
        S want = prefix + std::to_string(n) + "/" + word + "%" + std::to_string(u);
        Call("format").raw("want", jstr(want)).raw("r", jstr(libff::FORMAT(prefix, "%d/%s%%%lu", n, word.c_str(), u)));
        Call("format").raw("want", jstr(prefix)).raw("r", jstr(libff::FORMAT(prefix, "")));
#ifdef DEBUG
        const S due = want;
#else
        const S due = "";              // formatting is switched off
#endif
        { S got = FMT(prefix, "%d/%s%%%lu", n, word.c_str(), u); Call("format").raw("want", jstr("due")).raw("r", jstr(got == due ? "due" : got)); }
    }
}
static void util0(Rng g) {
    Seg s;
    for (uint64_t n = 0; n <= (uint64_t)N(300, 5000); n++) t_log(n);
    for (int k = 0; k < 64; k++) for (int d = -2; d <= 2; d++) t_log((1ull << k) + d);
    for (int t = 0; t < N(200, 3000); t++) t_log(special64(g));
    for (int k = 0; k < 64; k++) Call("exp2").i("k", k).raw("r", ju64(libff::exp2(k)));
    { uint32_t a = 0x12345678; Call("endian").i("first", *(unsigned char *)&a).b("r", libff::is_little_endian()); }
}
static void util1(Rng g) {
    Seg s;
    for (int w = 1; w <= 8; w++) { for (long i = -(1l << (w - 1)); i < (1l << (w - 1)); i++) t_twos(i, w); for (long i = 0; i < (1l << w); i++) f_twos(i, w); }
    for (int w = 9; w <= 63; w++) for (int t = 0; t < N(14, 80); t++) {
        long hi = w >= 32 ? 2147483647l : (1l << (w - 1)) - 1, lo = -hi - 1;
        long i = t == 0 ? hi : t == 1 ? lo : t == 2 ? 0 : t == 3 ? -1 : t == 4 ? 1 : lo + (long)(g.next() % (uint64_t)(hi - lo + 1));
        t_twos(i, w);
        f_twos(i < 0 ? (uint64_t)i & ((w == 64 ? 0 : 1ull << w) - 1) : i, w);
    }
}
static void util2(Rng g) {
    Seg s;
    for (int l = 0; l <= 7; l++) for (uint64_t n = 0; n < (1ull << l); n++) t_rev(n, l);
    for (int l = 8; l <= 64; l++) for (int t = 0; t < N(8, 60); t++) { uint64_t m = l == 64 ? ~0ull : (1ull << l) - 1; t_rev((t == 0 ? 1 : t == 1 ? m : t == 2 ? 1ull << (l - 1) : special64(g)) & m, l); }
    for (int x = 0; x <= 40; x++) for (int y = 0; y <= 12; y++) t_div(x, y);
    for (int t = 0; t < N(300, 3000); t++) {
        long long y = (long long)(special64(g) >> 2), x = (long long)(special64(g) >> 2); t_div(x, y);
        if (y > 0 && y < (1ll << 31)) { long long q = (long long)g.below(1 << 30); t_div(q * y, y); t_div(q * y + 1, y); if (q) t_div(q * y - 1, y); }
    }
    t_div((1ull << 63) - 1, 1); t_div((1ull << 62), 1ll << 62); t_div(0, (1ull << 63) - 1); t_div(5, 0); t_div(0, 0);
}
static void util3(Rng g) {
    Seg s;
    for (int w = 1; w <= 64; w++) for (int t = 0; t < N(2, 12); t++) {
        uint64_t m = w == 64 ? ~0ull : (1ull << w) - 1;
        unsigned long a = special64(g) & m, b = special64(g) & m, c = t & 1 ? 1ul << (w - 1) : special64(g) & m;
        std::vector<uint64_t> ws; libff::bit_vector r;
        switch (g.below(4)) { case 0: r = libff::int_list_to_bits({}, w); break; case 1: r = libff::int_list_to_bits({c}, w); ws = {c}; break;
            case 2: r = libff::int_list_to_bits({a, c}, w); ws = {a, c}; break; default: r = libff::int_list_to_bits({a, b, c}, w); ws = {a, b, c}; }
        Call("listbits").raw("ws", jwords(ws)).i("w", w).raw("r", jbits(r));
    }
}
static void bits(Rng g) {
    Seg s;
    for (int t = 0; t < N(40, 400); t++) {       // several bit vectors in one stream
        std::vector<libff::bit_vector> vs(1 + g.below(4)); std::stringstream ss;
        for (auto &v : vs) { v.resize(g.chance(1, 4) ? g.below(3) : g.below(140)); for (size_t i = 0; i < v.size(); i++) v[i] = g.chance(1, 2); libff::serialize_bit_vector(ss, v); }
        for (size_t i = 0; i < vs.size(); i++) {
            libff::bit_vector w(g.chance(1, 2) ? g.below(9) : g.below(200), g.chance(2, 3)); libff::deserialize_bit_vector(ss, w);
            bool good = !ss.fail(); char c; bool end = true;
            if (i + 1 == vs.size()) { while (ss.get(c)) if (c != '\n') end = false; }
            Call("bvtext").raw("v", jbits(vs[i])).raw("r", jbits(w)).b("atend", good && end);
        }
    }
}

// ------------------------------------------------------------------- bigints
static S capture_print(std::function<void()> f) {
    fflush(stdout);
    FILE *t = tmpfile(); int saved = dup(1); dup2(fileno(t), 1);
    f(); fflush(stdout); dup2(saved, 1); close(saved);
    rewind(t); char b[4096]; size_t k = fread(b, 1, sizeof b - 1, t); b[k] = 0; fclose(t);
    if (k && b[k - 1] == '\n') b[k - 1] = 0;
    return b;
}
template<mp_size_t n> struct BM {
    libff::bigint<n> r[4]; Rng &g;
    explicit BM(Rng &g) : g(g) { Seg s((int)n); }
    S js(int i) { return jz(zof(r[i])); }
    void from(int d, const Z &v, const char *how) { Ev("from").i("d", d + 1).raw("v", jz(v)).str("how", how).raw("r", js(d)); }
    Z val() {
        switch (g.below(9)) {
        case 0: return Z((int)g.below(3)); case 1: return pow2(64 * n) - Z(1) - Z((int)g.below(2));
        case 2: return pow2(g.below(64 * n)); case 3: return pow2(1 + g.below(64 * n)) - Z(1);
        case 4: { Z r = pow2(64 * g.below(n)); return g.chance(1, 2) ? r : r - Z(1); }
        case 5: return limb_pattern(g, n); case 6: return zrand(g, pow2(1 + g.below(64 * n)));
        case 7: { Z r; mpz_ui_pow_ui(r.v, 10, g.below(19 * n + 1)); r = r % pow2(64 * n); return g.chance(1, 2) ? r : (r + Z(1)) % pow2(64 * n); }
        default: return zrand(g, pow2(64 * n)); }
    }
    void load(int d, Z v) {
        switch (g.below(5)) {
        case 0: { v = v % pow2(64); unsigned long u = mpz_get_ui(v.v); r[d] = libff::bigint<n>(u); from(d, v, "ulong"); break; }
        case 1: { char *s = mpz_get_str(nullptr, 10, v.v); r[d] = libff::bigint<n>(s); free(s); from(d, v, "string"); break; }
        case 2: r[d] = libff::bigint<n>(v.v); from(d, v, "mpz"); break;
        case 3: { libff::bigint<n> t = bof<n>(v); std::stringstream ss; ss << t; ss >> r[d]; bool ok = (bool)ss; if (ok) from(d, v, "stream"); else Ev("StreamFail"); break; }
        default: { char *s = mpz_get_str(nullptr, 10, v.v); libff::bigint<n> t(s); std::stringstream ss; ss << t << OUTPUT_NEWLINE << t << OUTPUT_NEWLINE; ss >> r[d]; libff::consume_OUTPUT_NEWLINE(ss); libff::bigint<n> u; for (auto &x : u.data) x = ~0ul; ss >> u; free(s);
            if (!(u == r[d])) Ev("StreamFail"); from(d, v, "stream2"); } }
    }
    void observe(int a) {
        libff::bigint<n> &x = r[a];
        std::vector<uint64_t> w(x.data, x.data + n); Z m(12345); x.to_mpz(m.v);
        std::vector<long> at; std::vector<bool> bs;
        for (int i = 0; i < (int)n; i++) for (int o : {0, 1, 31, 32, 62, 63}) at.push_back(64 * i + o);
        at.push_back(64 * n); at.push_back(64 * n + 1); at.push_back(64 * n + 64); at.push_back(1 << 20);
        for (int t = 0; t < 6; t++) at.push_back(g.below(64 * n));
        for (long i : at) bs.push_back(x.test_bit(i));
        Ev("observe").i("a", a + 1).raw("words", jwords(w)).raw("mpz", jz(m)).i("nbits", x.num_bits()).i("maxbits", x.max_bits()).raw("low", ju64(x.as_ulong()))
            .b("zero", x.is_zero()).b("even", x.is_even()).raw("at", jints(at)).raw("bits", jbits(bs));
    }
    void compare(int a, int b) { Ev("compare").i("a", a + 1).i("b", b + 1).b("eq", r[a] == r[b]).b("ne", r[a] != r[b]).b("lt", r[a] < r[b]); }
    void dump() { Ev e("dump"); S s = "["; for (int i = 0; i < 4; i++) s += (i ? "," : "") + js(i); e.raw("r", s + "]"); }
    void run() {
        for (int t = 0; t < N(40, 600); t++) {
            int d = (int)g.below(4), a = (int)g.below(4), b = (int)g.below(4);
            switch (g.below(8)) {
            case 0: { Z v = zof(r[a]); Z w = g.chance(1, 2) ? v + Z(1) : v + pow2(64 * g.below(n)); load(d, w % pow2(64 * n)); compare(d, a); compare(a, d); break; }
            case 1: r[d] = r[a]; Ev("copy").i("d", d + 1).i("a", a + 1).raw("r", js(d)); compare(a, d); break;
            case 2: if (g.chance(1, 4) || env_u64("VT_SPECIAL", 0)) { r[d].clear(); Ev("clear").i("d", d + 1).raw("r", js(d)); } else { r[d].randomize(); Ev("randomize").i("d", d + 1).raw("r", js(d)); } break;
            default: load(d, val()); compare(a, b); compare(b, a); compare(d, d); }
            observe(d);
            if (t % 8 == 0) dump();
#ifndef VT_THREADS
            if (t % 10 == 0) {   // standard output is shared
                S p = capture_print([&] { r[d].print(); }); Z v(p.c_str(), 10); Ev("from").i("d", d + 1).raw("v", jz(v)).str("how", "print").raw("r", js(d));
                S h = capture_print([&] { r[d].print_hex(); }); Z u(h.c_str(), 16); Ev("copy").i("d", d + 1).i("a", d + 1).raw("r", jz(u));
            }
#endif
        }
        r[0] = libff::bigint<n>::one(); from(0, Z(1), "one"); r[1] = libff::bigint<n>(); from(1, Z(0), "default"); r[2] = libff::bigint<n>("0"); from(2, Z(0), "string");
        dump();
    }
};
template<mp_size_t n> void bigints(Rng &g) { BM<n> m(g); m.run(); }

// ------------------------------------------------------------ roots of unity
template<class F> void t_root(const char *name, uint64_t n) {
    Call c("root"); c.str("field", name).raw("n", ju64(n));
    try { F r = libff::get_root_of_unity<F>(n); c.raw("r", K<F>::js(r)); }
    catch (const std::invalid_argument &) { c.str("threw", "invalid_argument"); } catch (const std::exception &) { c.str("threw", "exception"); } catch (...) { c.str("threw", "other"); }
}
template<class F> void roots(const char *name, Rng &g) {
    Seg s;
    for (int k = 0; k < 64; k++) t_root<F>(name, 1ull << k);
    for (uint64_t n = 0; n <= (uint64_t)N(40, 1100); n++) t_root<F>(name, n);
    for (int k = 2; k < 64; k++) { t_root<F>(name, (1ull << k) + 1); t_root<F>(name, (1ull << k) - 1); t_root<F>(name, 3ull << (k - 2)); }
    for (int t = 0; t < N(20, 500); t++) { uint64_t n = special64(g); t_root<F>(name, n); }
    t_root<F>(name, ~0ull);
    for (uint64_t n = 1; n < 1ull << F::s; n *= 2) {
        F r = libff::get_root_of_unity<F>(n), q = libff::get_root_of_unity<F>(2 * n);
        Call("nested").str("field", name).raw("n", ju64(n)).raw("r", K<F>::js(r)).raw("q", K<F>::js(q));
    }
    Call("coset").str("field", name).i("s", (long)F::s).raw("g", K<F>::js(F::multiplicative_generator)).raw("r", K<F>::js(libff::coset_shift<F>()));
}

// ------------------------------------------------------------------- packing
static std::vector<uint64_t> flatwords(Rng &g, const Z &p, int n, int deg, int extra) {
    std::vector<uint64_t> ws;
    for (int i = 0; i < deg; i++) {
        uint64_t w[32]; Z top = pow2(bits(p)), v;
        switch (g.below(7)) { case 0: v = p; break; case 1: v = p - Z(1); break; case 2: v = p + Z(1); break; case 3: v = top - Z(1); break; default: v = g.chance(1, 4) ? zrand(g, top) : zrand(g, p); }
        v = v % top;
        if (g.chance(1, 2)) v = v + top * Z((long)(g.next() >> 1)) % pow2(64 * n);   // bits beyond the field size
        v = v % pow2(64 * n);
        to_limbs(v, w, n);
        for (int e = 0; e < extra; e++) ws.push_back(g.next());
        ws.insert(ws.end(), w, w + n);
    }
    return ws;
}
template<class F> void words(const char *name, Rng &g, bool bin, int base) {
    Seg s;
    const int n = (int)K<F>::limbs, deg = K<F>::deg;
    for (int t = 0; t < (bin ? N(80, 1000) : N(30, 600)); t++) {
        F x = any<F>(g), y = any<F>(g); auto ws = x.to_words();
        { Call c("towords"); c.str("field", name).raw("x", K<F>::js(x)).raw("r", jwords(ws)); }
        bool ok = y.from_words(ws);
        { Call c("fromwords"); c.str("field", name).raw("ws", jwords(ws)).raw("v", K<F>::js(y)).b("ok", ok && y == x); }
        std::vector<uint64_t> v;
        if (bin && g.chance(1, 2)) v = related_words(g, n);
        else if (bin) { for (int i = 0; i < n + (int)g.below(2); i++) v.push_back(special64(g)); }
        else v = flatwords(g, K<F>::p(), n, deg, (int)(g.chance(1, 4) ? 1 + g.below(2) : 0));
        F z = any<F>(g); ok = z.from_words(v);
        { Call c("fromwords"); c.str("field", name).raw("ws", jwords(v)).raw("v", K<F>::js(z)).b("ok", ok); }
    }
    (void)base;
}
static libff::bit_vector rbits(Rng &g, size_t n) { libff::bit_vector v(n); int m = (int)g.below(4); for (size_t i = 0; i < n; i++) v[i] = m == 0 ? true : m == 1 ? i == n - 1 || i == 0 : g.chance(1, 2); return v; }
template<class F> void packing(const char *name, Rng &g) {
    const size_t cap = F::floor_size_in_bits(), ceil = F::ceil_size_in_bits();
    auto jf = [](const std::vector<F> &v) { return jlist(v, [](const F &x) { return K<F>::js(x); }); };
    Seg s;
    { Call c("sizes"); c.str("field", name).i("ceil", ceil).i("floor", cap).i("log", libff::log_of_field_size_helper<F>(F::one())).i("sound", libff::soundness_log_of_field_size_helper<F>(F::one())).i("kind", libff::get_field_type<F>(F::one())); }
    for (int t = 0; t < N(25, 400); t++) {
        size_t c; switch (g.below(6)) { case 0: c = 1; break; case 1: c = cap; break; case 2: c = 64; break; case 3: c = cap - 1; break; case 4: c = 63 + g.below(3); break; default: c = 1 + g.below(cap); }
        size_t len; switch (g.below(5)) { case 0: len = g.below(3); break; case 1: len = c * (1 + g.below(3)); break; case 2: len = c * (1 + g.below(3)) + 1; break; case 3: len = c * (1 + g.below(2)) - 1; break; default: len = g.below(3 * cap); }
        if (c == 1) len = g.below(40);
        auto v = rbits(g, len);
        { Call e("packbits"); e.str("field", name).raw("v", jbits(v)).i("c", c).raw("r", jf(libff::pack_bit_vector_into_field_element_vector<F>(v, c))); }
        auto pk = libff::pack_bit_vector_into_field_element_vector<F>(v);
        { Call e("packbits0"); e.str("field", name).raw("v", jbits(v)).raw("r", jf(pk)); }
        { Call e("fieldstobits"); e.str("field", name).raw("x", jf(pk)).raw("r", jbits(libff::convert_field_element_vector_to_bit_vector<F>(pk))); }
        size_t w; switch (g.below(5)) { case 0: w = 1; break; case 1: w = 64; break; case 2: w = 32; break; default: w = 1 + g.below(64); }
        std::vector<size_t> iv(g.below(9)); for (auto &x : iv) x = special64(g);
        { Call e("packints"); e.str("field", name).raw("v", jwords(iv, 0)).i("w", w).raw("r", jf(libff::pack_int_vector_into_field_element_vector<F>(iv, w))); }
        auto b = rbits(g, t < 4 ? ceil - t % 2 : g.below(ceil + 1));
        { Call e("bitstofield"); e.str("field", name).raw("v", jbits(b)).raw("r", K<F>::js(libff::convert_bit_vector_to_field_element<F>(b))); }
        F x = any<F>(g);
        { Call e("fieldtobits"); e.str("field", name).raw("x", K<F>::js(x)).raw("r", jbits(libff::convert_field_element_to_bit_vector<F>(x))); }
        size_t bc = g.chance(1, 3) ? g.below(4) : g.below(ceil + 70);
        { Call e("fieldtobitsn"); e.str("field", name).raw("x", K<F>::js(x)).i("c", bc).raw("r", jbits(libff::convert_field_element_to_bit_vector<F>(x, bc))); }
        auto bb = rbits(g, g.below(20));
        { Call e("bitstofields"); e.str("field", name).raw("v", jbits(bb)).raw("r", jf(libff::convert_bit_vector_to_field_element_vector<F>(bb))); }
        int k = (int)g.below(K<F>::limbs);
        { Call e("word"); e.raw("x", K<F>::js(x)).i("k", k).raw("r", ju64(libff::get_word_of_field_elem<F>(x, k))); }
    }
}
template<class F> void binsizes(const char *name, Rng &g) {
    Seg s; F x = any<F>(g);
    Call("sizes2").str("field", name).i("ceil", F::ceil_size_in_bits()).i("floor", F::floor_size_in_bits()).i("log", libff::log_of_field_size_helper<F>(x)).i("sound", libff::soundness_log_of_field_size_helper<F>(x)).i("kind", libff::get_field_type<F>(x));
    for (int t = 0; t < 6; t++) for (int k = 0; k < (int)K<F>::limbs; k++) { x = any<F>(g); Call("word").raw("x", K<F>::js(x)).i("k", k).raw("r", ju64(libff::get_word_of_field_elem<F>(x, k))); }
}

int main(int, char **argv) {
    open_trace(argv[1]);
    init_all_fields();
    S mode = argv[2];
    Rng g(seed() * 31337 + mode.size());
    if (mode == "util") { TASK(formats(g)); g.next(); TASK(util0(g)); g.next(); TASK(util1(g)); g.next(); TASK(util2(g)); g.next(); TASK(util3(g)); }
    if (mode == "bits") { TASK(bits(g)); }
    if (mode == "bigint") {
        g.next(); TASK(bigints<1>(g)); g.next(); TASK(bigints<2>(g)); g.next(); TASK(bigints<3>(g)); g.next(); TASK(bigints<4>(g)); g.next(); TASK(bigints<5>(g)); g.next(); TASK(bigints<6>(g)); g.next(); TASK(bigints<7>(g)); g.next(); TASK(bigints<8>(g));
        g.next(); TASK(bigints<10>(g)); g.next(); TASK(bigints<12>(g)); g.next(); TASK(bigints<15>(g)); g.next(); TASK(bigints<20>(g)); g.next(); TASK(bigints<24>(g));
    }
    if (mode == "root") {
#define R(T) g.next(); TASK(roots<libff::T>(#T, g));
        PRIME_FIELDS(R)
    }
    if (mode == "pack") {
#define W(T) g.next(); TASK(words<libff::T>(#T, g, false, 0));
        PRIME_FIELDS(W) EXT_FIELDS(W)
#define WB(T) g.next(); TASK(words<libff::T>(#T, g, true, 0));
        BIN_FIELDS(WB)
#define PK(T) g.next(); TASK(packing<libff::T>(#T, g));
        PRIME_FIELDS(PK)
        binsizes<libff::gf64>("gf64", g); binsizes<libff::gf128>("gf128", g); binsizes<libff::gf192>("gf192", g); binsizes<libff::gf256>("gf256", g);
    }
    close_trace();
}
