// C07: pointer variables get the size of the allocation they point into.
#include "new.hpp"
#include "impl.hpp"
#include "gen.hpp"
using namespace model;

// ---- the random choices of the reader are part of the enumeration ---------
static std::vector<int> g_levels; static size_t g_li; static int g_run;
static int g_mode;      // 0 scripted, 1 never grow, 2 always grow, 3 alternate, 4 fixed pseudo-random
static uint64_t g_lcg;
static void levels(int mode, const std::vector<int> & v = std::vector<int>()) {
    g_mode = mode; g_levels = v; g_li = 0; g_run = 0; g_lcg = 88172645463325252ull;
}
extern "C" int rand() {
    bool grow = false;
    switch (g_mode) {
    case 0: {
        int want = g_li < g_levels.size() ? g_levels[g_li] : 1;
        if (++g_run < want) grow = true; else { g_run = 0; g_li++; }
        break; }
    case 1: break;
    case 2: grow = true; break;
    case 3: grow = (g_run++ & 3) != 3; break;
    case 4: g_lcg ^= g_lcg << 13; g_lcg ^= g_lcg >> 7; g_lcg ^= g_lcg << 17; grow = g_lcg & 1; break;
    }
    return grow ? 0 : RAND_MAX;
}
enum { P8 = 0, P4 = 1, U8 = 2, S8 = 3 };
static model::Trace base() {
    model::Trace t; t.names = {"p"}; t.types = {{0, FP, 8}, {0, FP, 4}, {0, FU, 8}, {0, FS, 8}};
    return t;
}
static void probe(Point & p, uint64_t a) {
    p.push_back(var(0, P8, le(a, 8)));
    if (a <= 0xffffffffull) p.push_back(var(0, P4, le(a, 4)));
}
static void go(mc::Ctx & c, const model::Trace & t, const std::string & what, int how = impl::CXX) {
    Bytes b = encode(t);
    c.describe(what + " " + show(t));
    c.state(mc::mix(mc::hash_str(b), mc::hash_str(what)));
    for (auto & p : t.points) c.step(p.size());
    Status st; std::string r = impl::read_agrees(c, b, 0, how, &st);
    if (!r.empty()) c.fail(r);
}
static std::string lv(const std::vector<int> & v) { std::string s = "levels"; for (int x : v) s += strf(" %d", x); return s; }

// allocations and frees of three addresses, with every level per insertion
SCENARIO(histories_with_levels) {
    int L = c.choose(c.thorough ? 6 : 5);
    model::Trace t = base(); Point p; std::vector<int> ls;
    for (int i = 0; i < L; i++) {
        int k = c.choose(c.thorough && L == 5 ? 12 : 15);
        if (k < 3) p.push_back(buf(0x1000 + 16 * k, 0));
        else { k -= 3; int lev = c.thorough && L == 5 ? k / 3 % 3 : k / 3 % 4; p.push_back(buf(0x1000 + 16 * (k % 3), i % 2 ? 8 : 16)); ls.push_back(lev + 1); }
    }
    if (!c.mine()) return;
    p.push_back(stmt(1));
    for (uint64_t a = 0xff8; a <= 0x1034; a += 4) probe(p, a);
    t.points.push_back(p);
    // a level is consumed per new allocation only; keep the script aligned
    // by giving every allocation its own (unused ones shift the later ones)
    levels(0, ls);
    go(c, t, lv(ls));
}
// longer histories, one size, fixed level patterns
SCENARIO(histories) {
    int L = 4 + c.choose(c.thorough ? 4 : 3), m = c.choose(4) + 1;
    model::Trace t = base(); Point p;
    for (int i = 0; i < L; i++) { int k = c.choose(6); p.push_back(buf(0x1000 + 16 * (k % 3), k < 3 ? 12 : 0)); }
    if (!c.mine()) return;
    p.push_back(stmt(1));
    for (uint64_t a = 0xff8; a <= 0x1034; a += 4) probe(p, a);
    t.points.push_back(p);
    levels(m);
    go(c, t, strf("level pattern %d", m));
}
// overlapping, adjacent and nested allocations of many sizes; every boundary probed
SCENARIO(sizes) {
    static const uint64_t A[] = {0, 0x10, 0x14, 0x100, 0x8000000000000000ull};
    static const uint64_t S[] = {0, 1, 4, 0x10, 0x11, 0x100, 0x7fffffffffffffffull, 0xffffffffull};
    int L = 1 + c.choose(c.thorough ? 4 : 3); model::Trace t = base(); Point p; std::vector<std::pair<uint64_t, uint64_t> > v;
    for (int i = 0; i < L; i++) { uint64_t a = A[c.choose(L == 4 ? 4 : 5)], s = S[c.choose(L == 4 ? 6 : 8)]; p.push_back(buf(a, s)); v.push_back({a, s}); }
    if (!c.mine()) return;
    p.push_back(stmt(1));
    for (auto & x : v) for (int d = -1; d <= 1; d++) { probe(p, x.first + d); probe(p, x.first + x.second + d); probe(p, x.first + x.second / 2); }
    t.points.push_back(p);
    levels(1 + L % 4);
    go(c, t, "sizes");
}
// allocations, pointers and ends of points in every order
SCENARIO(points) {
    int L = 1 + c.choose(c.thorough ? 7 : 6);
    model::Trace t = base(); t.points.push_back(Point());
    for (int i = 0; i < L; i++) {
        Point & p = t.points.back();
        switch (c.choose(6)) {
        case 0: p.push_back(buf(0x2000, 0x20)); break;
        case 1: p.push_back(buf(0x2000, 0)); break;
        case 2: p.push_back(buf(0x2010, 0x40)); break;
        case 3: probe(p, 0x2018); break;
        case 4: t.points.push_back(Point()); break;
        case 5: p.push_back(buf(0x2000, 0x10)); probe(p, 0x2010); break;
        }
    }
    if (!c.mine()) return;
    for (int k = 0; k < 2; k++) {
        t.points.push_back({stmt(7)});
        for (uint64_t a : {0x1fffull, 0x2000ull, 0x200full, 0x2010ull, 0x2011ull, 0x2020ull, 0x2021ull, 0x2050ull, 0x2051ull}) probe(t.points.back(), a);
    }
    levels(4);
    go(c, t, "points", L <= 4 ? impl::ALL : impl::CXX);
}
// addresses over the whole range, the reserved address among them
SCENARIO(addresses) {
    static const uint64_t A[] = {0, 1, 0x10, 0xffffffffull, 0x100000000ull, 0x100000010ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0xfffffffffffffff0ull, 0xfffffffffffffffeull, 0xffffffffffffffffull};
    int L = 1 + c.choose(3); model::Trace t = base(); Point p; std::vector<uint64_t> v;
    for (int i = 0; i < L; i++) { uint64_t a = A[c.choose(11)]; bool f = i ? c.flip() : false; p.push_back(buf(a, f ? 0 : a == UINT64_MAX ? 0x10 : a > 0xfffffffffffffff0ull ? 1 : 8)); v.push_back(a); }
    int m = 1 + c.choose(4);
    if (!c.mine()) return;
    p.push_back(stmt(1));
    for (uint64_t a : A) { if (a != UINT64_MAX) probe(p, a); probe(p, a - 1); if (a + 4 > a) probe(p, a + 4); probe(p, a / 2); }
    t.points = {p, {stmt(2)}}; for (auto & e : p) if (e.tag == 2) t.points[1].push_back(e);
    levels(m);
    go(c, t, "addresses", impl::CXX | impl::CFILE);
}
// every single address bit
SCENARIO(address_bits) {
    int i = c.choose(64), j = c.choose(64), w = c.choose(2);
    if (!c.mine()) return;
    model::Trace t = base(); uint64_t a = 1ull << i, b = 1ull << j;
    Point p = {stmt(1), buf(a, 1 + (a >> 1)), buf(b, w ? 1 : 1 + (b >> 2))};
    for (int k = 0; k < 64; k++) { probe(p, 1ull << k); probe(p, (1ull << k) | (1ull << i)); probe(p, (1ull << k) - 1); }
    t.points = {p};
    levels(1 + (i + j) % 4);
    go(c, t, strf("bits %d %d", i, j));
}
// many allocations in many orders
static uint64_t order(int kind, uint64_t i, uint64_t n) {
    switch (kind) {
    case 0: return i;
    case 1: return n - 1 - i;
    case 2: return i % 2 ? n - 1 - i / 2 : i / 2;
    case 3: return (i * 2654435761u) % n;       // with repetitions
    default: { uint64_t h = n / 2; return i < h ? 2 * i + 1 : 2 * (i - h); }
    }
}
SCENARIO(long_histories) {
    static const uint64_t N[] = {1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 34, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 500, 1000, 3000, 10000};
    uint64_t n = N[c.choose(c.thorough ? 30 : 28)]; int oa = c.choose(5), fr = c.choose(6), m = 1 + c.choose(4);
    if (!c.mine()) return;
    model::Trace t = base(); t.points.push_back(Point());
    for (uint64_t i = 0; i < n; i++) { t.points.back().push_back(buf(0x10000 + 64 * order(oa, i, n), 16 + i % 32)); if (i % 7 == 6) t.points.push_back(Point()); }
    for (uint64_t i = 0; i < n; i++) {
        uint64_t k = order((oa + fr) % 5, i, n);
        bool f = fr == 0 ? false : fr == 1 ? true : fr == 2 ? k % 2 : fr == 3 ? k % 2 == 0 : fr == 4 ? k > n / 2 : k < n / 2;
        if (f) t.points.back().push_back(buf(0x10000 + 64 * k, 0));
        if (i % 13 == 5) t.points.push_back(Point());
    }
    t.points.push_back({stmt(3)});
    for (uint64_t i = 0; i <= n; i++) { probe(t.points.back(), 0x10000 + 64 * i); probe(t.points.back(), 0x10000 + 64 * i + 20); probe(t.points.back(), 0x10000 + 64 * i - 1); }
    // reuse what was freed
    for (uint64_t i = 0; i < n; i += 3) t.points.back().push_back(buf(0x10000 + 64 * i, 40));
    for (uint64_t i = 0; i <= n; i++) probe(t.points.back(), 0x10000 + 64 * i + 33);
    levels(m);
    go(c, t, strf("%llu allocations, order %d, frees %d, level pattern %d", (unsigned long long) n, oa, fr, m));
}
// traces do not see each other's allocations; other formats get no size
SCENARIO(independent) {
    int first = c.choose(3), how = c.choose(3), ty = c.choose(4);
    if (!c.mine()) return;
    levels(4);
    model::Trace a = base(), b = base();
    a.points = {{stmt(1), buf(0x1000, 0x100)}};
    b.points = {{stmt(1), var(0, ty, ty == P4 ? le(0x1010, 4) : le(0x1010, 8))}, {buf(0x1008, 0x10), var(0, ty, ty == P4 ? le(0x1010, 4) : le(0x1010, 8))}};
    for (int i = 0; i < first; i++) go(c, a, "first", how == 0 ? impl::CXX : how == 1 ? impl::CFILE : impl::CDB);
    go(c, b, strf("after %d other reads, type %d", first, ty), how == 0 ? impl::CXX : how == 1 ? impl::CFILE : impl::CDB);
}
