// Random write/read programs over one byte stream (spec/Streams.tla).
#pragma once
#include "fieldio.hpp"
#include <libff/common/serialization.hpp>
#include <functional>
#include <deque>
#include <sstream>

namespace vt {
struct Prog {
    std::stringstream ss;
    std::deque<std::function<void()>> unread;
    Rng &g;
    bool bytes;                        // log encodings
    explicit Prog(Rng &g_, bool b = true) : g(g_), bytes(b) { Begin(); }
    long wpos() { return (long)ss.tellp(); }
    // w: writer, r: reader into a value of type T, j: JSON
    template<class T, class W, class R, class J, class G> void write_with(const std::string &t, const T &x, W w, R r, J j, G dirty, bool sep) {
        long p0 = wpos();
        if (p0 < 0) p0 = 0;
        w(ss, x);
        long p1 = wpos();
        {
            Ev e("write"); e.str("t", t).raw("v", j(x)).i("n", p1 - p0).i("pos", p1);
            if (bytes && p1 - p0 <= 400) e.raw("b", jraw(ss.str().substr(p0, p1 - p0)));
        }
        unread.push_back([this, t, x, r, j, dirty]() {
            T y = dirty();
            r(ss, y);
            Ev("read").str("t", t).raw("v", j(y)).i("pos", (long)ss.tellg()).b("good", ss.good()).b("c", y == x);
        });
        if (sep) {
            p0 = wpos(); ss << OUTPUT_NEWLINE; p1 = wpos();
            Ev("sep").i("n", p1 - p0);
            unread.push_back([this]() { consume_OUTPUT_NEWLINE(ss); Ev("skip").i("pos", (long)ss.tellg()); });
        }
    }
    template<class T, class J, class G> void write(const std::string &t, const T &x, J j, G dirty, bool sep) {
        write_with(t, x, [](std::ostream &o, const T &v) { o << v; }, [](std::istream &i, T &v) { i >> v; }, j, dirty, sep);
    }
    void read() { if (!unread.empty()) { auto f = unread.front(); unread.pop_front(); f(); } }
    void finish() {
        while (!unread.empty()) read();
        Ev("allread").i("pos", (long)ss.tellg());
    }
};
template<class F> std::string fname();
} // namespace vt
