// P25: histories of initializations, each in a process of its own.
//   h_init TRACE PROGRAMS...
#include "params.hpp"
#include "progs.hpp"
#include "streamio.hpp"
#include <map>
#include <memory>
#include <sys/wait.h>
using namespace vt;

static S digest(const S &t) {
    uint64_t a = 0xcbf29ce484222325ull, b = 0x9E3779B97F4A7C15ull;
    for (unsigned char c : t) { a = (a ^ c) * 0x100000001b3ull; b = (b + c) * 0xD6E8FEB86659FD93ull; b ^= b >> 29; }
    char s[40]; snprintf(s, sizeof s, "%016lx%016lx", a, b); return s;
}
static S join(const Dump &d) { S s; for (const S &x : d) s += x + "\n"; return s; }

// a value the program holds on to, and what it shows
struct Held { virtual ~Held() {} virtual S show() const = 0; virtual bool fresh() const = 0; S c, e; };
template<class T, class Show, class Make> struct H : Held {
    T v; Show s; Make m;
    H(Show s_, Make m_) : v(m_()), s(s_), m(m_) {}
    S show() const override { return digest(s(v)); }
    bool fresh() const override { return v == m() && !(v != m()); }     // equal to the same value computed anew
};
template<class Make, class Show> std::unique_ptr<Held> held(Make m, Show s) { return std::unique_ptr<Held>(new H<decltype(m()), Show, Make>(s, m)); }
template<class T> S ser(const T &x) { std::stringstream o; o << x; return o.str(); }

struct CurveOps {
    std::function<void()> fields, params, pp;
    std::function<Dump()> dfields, dall;
    std::function<std::unique_ptr<Held>(const S &)> make;
};
template<class PP, class G1, class G2, class Fr, class Fq, class Tw> struct Vals {
    static std::unique_ptr<Held> make(const S &e) {
        if (e == "fr") return held([] { return (Fr(12345) ^ 77ul).inverse() + Fr::nqr * Fr::root_of_unity; }, [](const Fr &x) { return je(x) + ser(x) + je(x * x - Fr(9)) + je(x.squared().sqrt().squared()); });
        if (e == "fq") return held([] { return (Fq(54321) ^ 99ul).inverse() - Fq::multiplicative_generator; }, [](const Fq &x) { return je(x) + ser(x) + je(-x * Fq(7)) + je(x.squared().sqrt().squared()); });
        if (e == "tower") return held([] { Rng g(5); return any_nonzero<Tw>(g) * any_nonzero<Tw>(g) + Tw::one(); }, [](const Tw &x) { return je(x) + je(x.inverse()) + je(x.Frobenius_map(1)) + je(x.squared()); });
        if (e == "g1") return held([] { return Fr(987654321) * G1::one(); }, [](const G1 &p) { return js(p) + ser(p) + js(p + G1::one()) + js(Fr(-3) * p) + (p.is_well_formed() ? "y" : "n"); });
        if (e == "g2") return held([] { return Fr(123456789) * G2::one(); }, [](const G2 &p) { return js(p) + ser(p) + js(p + G2::one()) + js(p.mul_by_q()) + (p.is_well_formed() ? "y" : "n"); });
        if (e == "pair") return held([] { return PP::miller_loop(PP::precompute_G1(Fr(3) * G1::one()), PP::precompute_G2(Fr(5) * G2::one())); },
                                     [](const typename PP::Fqk_type &f) { return je(PP::final_exponentiation(f)); });
        // points stored and read back
        return held([] { std::stringstream o; o << Fr(777) * G1::one(); G1 p; o >> p; return p; }, [](const G1 &p) { return js(p) + js(p.dbl()); });
    }
};
static std::map<S, CurveOps> &ops() {
    static std::map<S, CurveOps> m;
    if (m.empty()) {
#define CV(c, TW) { CurveOps o; o.fields = [] { init_##c##_fields(); }; o.params = [] { init_##c##_params(); }; o.pp = [] { c##_pp::init_public_params(); }; \
        o.dfields = [] { return fields_##c(); }; o.dall = [] { Rng g(3); return dump_##c(g); }; o.make = Vals<c##_pp, c##_G1, c##_G2, c##_Fr, c##_Fq, TW>::make; m[#c] = o; }
        CV(alt_bn128, alt_bn128_Fq12) CV(bls12_381, bls12_381_Fq12) CV(edwards, edwards_Fq6) CV(mnt4, mnt4_Fq4) CV(mnt6, mnt6_Fq6)
    }
    return m;
}
static const char *EXPRS[] = {"fr", "fq", "tower", "g1", "g2", "pair", "store"};
static std::map<S, std::map<S, S>> ref;       // digests
static std::map<S, Dump> refd;                // texts, to name what differs
static S reftext;

static S in_child(std::function<S()> f) {
    int fd[2]; if (pipe(fd)) exit(3);
    oflush(); fflush(nullptr);
    pid_t p = fork();
    if (p == 0) { ::close(fd[0]); S s = f(); size_t o = 0; while (o < s.size()) { ssize_t k = ::write(fd[1], s.data() + o, s.size() - o); if (k <= 0) _exit(91); o += k; } _exit(0); }
    ::close(fd[1]); S s; char b[4096]; ssize_t k; while ((k = ::read(fd[0], b, sizeof b)) > 0) s.append(b, k);
    ::close(fd[0]); int st; waitpid(p, &st, 0);
    return s;
}
static void references() {
    for (auto &kv : ops()) {
        const S c = kv.first; CurveOps &o = kv.second;
        S all = in_child([&] { o.pp(); return join(o.dall()); });
        Dump d; for (size_t a = 0, b; (b = all.find('\n', a)) != S::npos; a = b + 1) d.push_back(all.substr(a, b - a));
        refd[c] = d; ref[c]["params"] = digest(join(d));
        ref[c]["fields"] = in_child([&] { o.fields(); return digest(join(o.dfields())); });
        for (const char *e : EXPRS) ref[c][e] = in_child([&] { o.pp(); return o.make(e)->show(); });
    }
    reftext = "{"; bool f1 = true;
    for (auto &kv : ref) { if (!f1) reftext += ","; f1 = false; reftext += "\"" + kv.first + "\":{"; bool f2 = true;
        for (auto &x : kv.second) { if (!f2) reftext += ","; f2 = false; reftext += "\"" + x.first + "\":\"" + x.second + "\""; } reftext += "}"; }
    reftext += "}";
}
static void look(const S &c, int level) {
    CurveOps &o = ops()[c];
    Dump f = o.dfields();
    Ev e("look"); e.str("c", c).str("fields", digest(join(f)));
    for (size_t i = 0; i < f.size(); i++) if (f[i] != refd[c][i]) { e.raw("differs", f[i]); break; }
    if (level < 2) return;
    Dump d = o.dall();
    e.str("params", digest(join(d)));
    for (size_t i = f.size(); i < d.size(); i++) if (i >= refd[c].size() || d[i] != refd[c][i]) { e.raw("differs", d[i]); break; }
}
static void play(const std::vector<Step> &prog, bool brief) {
    { Begin b; b.raw("ref", reftext); }
    std::map<S, int> level; std::vector<std::unique_ptr<Held>> hs;
    for (const Step &s : prog) {
        const S c = s.w.at(1); CurveOps &o = ops().at(c);
        if (s.op() == "hold") {
            hs.push_back(o.make(s.w.at(2))); hs.back()->c = c; hs.back()->e = s.w[2];
            Ev("hold").str("c", c).str("e", s.w[2]).str("v", hs.back()->show());
        } else {
            if (s.op() == "fields") o.fields(); else if (s.op() == "params") o.params(); else o.pp();
            int k = s.op() == "fields" ? 1 : 2;
            Ev(s.op().c_str()).str("c", c);
            level[c] = std::max(level[c], k);
            // the two MNT curves share their prime fields
            for (auto &kv : level) if (!brief || kv.first == c || &s == &prog.back()) look(kv.first, kv.second);
            for (size_t i = 0; i < hs.size(); i++) Ev("again").i("i", (long)i + 1).str("c", hs[i]->c).str("e", hs[i]->e).str("v", hs[i]->show()).b("same", hs[i]->fresh());
        }
    }
}
int main(int argc, char **argv) {
    open_trace(argv[1]);
    inhibit_profiling_info = inhibit_profiling_counters = true;
    references();
    for (int a = 2; a < argc; a++) for (auto &prog : read_programs(argv[a])) {
        oflush(); fflush(nullptr);
        pid_t p = fork();
        if (p == 0) { play(prog, false); oflush(); _exit(0); }
        int st; waitpid(p, &st, 0);
        ++os_().segments;
        if (!WIFEXITED(st) || WEXITSTATUS(st)) Ev("ChildFailed").i("status", st);
    }
    close_trace();
}
