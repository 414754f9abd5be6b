// gen.hpp -- small domains shared by the scenarios
#ifndef GEN_HPP
#define GEN_HPP
#include "model.hpp"
namespace gen {
using namespace model;

// every documented (format, width)
static inline const std::vector<Type> & all_types() {
    static const std::vector<Type> v = {
        {0, FU, 1}, {0, FU, 2}, {0, FU, 4}, {0, FU, 8},
        {0, FS, 1}, {0, FS, 2}, {0, FS, 4}, {0, FS, 8},
        {0, FF, 4}, {0, FF, 8}, {0, FP, 4}, {0, FP, 8},
        {0, FB, 0}, {0, FB, 1}, {0, FB, 3}, {0, FB, 8}, {0, FB, 16}};
    return v;
}
// bit patterns of N bytes: zero, ones, every single bit, every single byte,
// sign boundaries, all bytes distinct, ...
static inline std::vector<Bytes> patterns(int n) {
    std::vector<Bytes> r;
    r.push_back(Bytes(n, '\0'));
    r.push_back(Bytes(n, '\xff'));
    Bytes d; for (int i = 0; i < n; i++) d += (char) (0x11 * (i + 1)); r.push_back(d);
    Bytes e; for (int i = 0; i < n; i++) e += (char) (0xf1 - 0x11 * i); r.push_back(e);
    for (int i = 0; i < 8 * n; i++) {
        Bytes b(n, '\0'); b[i / 8] = (char) (1 << (i % 8)); r.push_back(b);
        Bytes c(n, '\xff'); c[i / 8] = (char) ~(1 << (i % 8)); r.push_back(c);
    }
    for (int i = 0; i < n; i++) { Bytes b(n, '\0'); b[i] = '\xff'; r.push_back(b); }
    Bytes f(n, '\xff'); f[n - 1] = '\x7f'; r.push_back(f);
    Bytes g(n, '\0'); g[n - 1] = '\x80'; r.push_back(g);
    return r;
}
static inline std::string nm(uint64_t i) { return mc::strf("n%llu", (unsigned long long) i); }

// counts: everything up to LIM, then both sides of each power of two up to MAX
static inline std::vector<uint64_t> counts(uint64_t lim, uint64_t max) {
    std::vector<uint64_t> r;
    for (uint64_t i = 0; i <= lim; i++) r.push_back(i);
    for (uint64_t p = 1; p <= max; p *= 2)
        for (int d = -1; d <= 1; d++)
            if (p + d > lim && p + d <= max + 1) if (r.empty() || r.back() < p + d) r.push_back(p + d);
    return r;
}
} // namespace gen
#endif
