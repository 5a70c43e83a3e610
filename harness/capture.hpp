// Standard output, captured.
#pragma once
#include <sys/mman.h>
#include <cstdio>
#include <string>
namespace vt {
struct Captured { int fd = -1; off_t read = 0; };
inline Captured &cap() { static Captured c; return c; }
inline void capture() { cap().fd = memfd_create("out", 0); if (cap().fd < 0) exit(3); fflush(stdout); dup2(cap().fd, 1); }
inline std::string taken() {
    fflush(stdout); std::string s; char b[65536]; ssize_t k;
    while ((k = pread(1, b, sizeof b, cap().read)) > 0) { s.append(b, k); cap().read += k; }
    return s;
}
}
