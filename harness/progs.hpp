// Programs written by TLC from a specification: one JSON list of steps per line.
#pragma once
#include "vt.hpp"
#include <fstream>
namespace vt {
struct Step { std::vector<std::string> w; long operator[](size_t i) const { return atol(w.at(i).c_str()); } const std::string &op() const { return w.at(0); } };
inline std::vector<std::vector<Step>> read_programs(const char *path) {
    std::ifstream in(path);
    std::vector<std::vector<Step>> res; std::string line;
    while (std::getline(in, line)) {
        std::vector<Step> prog; int depth = 0; std::string cur; bool any = false, quoted = false;
        for (char c : line) {
            if (c == '"') { quoted = !quoted; any = true; }
            else if (quoted) cur += c;
            else if (c == '[') { if (++depth == 2) { prog.push_back(Step()); cur.clear(); any = false; } }
            else if (c == ',' || c == ']') {
                if (depth == 2 && any) { prog.back().w.push_back(cur); cur.clear(); any = false; }
                if (c == ']') depth--;
            } else if (c == ' ') {}
            else { cur += c; any = true; }
        }
        if (!prog.empty()) res.push_back(prog);
    }
    if (res.empty()) { fprintf(stderr, "no programs in %s\n", path); exit(3); }
    return res;
}
} // namespace vt
