// C01: reading a well-formed trace yields exactly what was recorded.
#include "impl.hpp"
#include "gen.hpp"
using namespace model;

static void go(mc::Ctx & c, const model::Trace & t, int how = impl::ALL, bool expect_ok = true) {
    Bytes b = encode(t);
    c.describe(show(t));
    c.state(mc::hash_str(b));
    Status st;
    std::string r = impl::read_agrees(c, b, 0, how, &st);
    if (!r.empty()) c.fail(r);
    c.check(!expect_ok || st == OK, "generator: trace is not well formed");
}
static model::Trace base() {
    model::Trace t;
    t.names = {"int", "p", "x", "", "blob"};
    t.types = {{0, FU, 1}, {1, FS, 2}, {0, FS, 4}, {1, FP, 8}, {4, FB, 0}, {2, FB, 3}, {3, FF, 4}, {3, FF, 8}, {2, FU, 8}, {0, FS, 1}};
    return t;
}
static const std::vector<Entry> & alphabet() {
    static const std::vector<Entry> a = {
        stmt(0x8000000000000005ull), aux(0xfedcba9876543210ull), buf(0x1000, 16), var(0, 1, le(0xfffe, 2)),
        var(2, 3, le(0x1004, 8)), var(3, 4, Bytes("a\0b", 3)), var(4, 5, Bytes("\0\xff\x80", 3)), buf(0x1000, 0),
        var(1, 0, le(0x80, 1)), var(1, 7, le(0x4004000000000000ull, 8)), stmt(0), aux(0), var(0, 4, "")};
    return a;
}
// every sequence of entries in one point
SCENARIO(entry_orders_one_point) {
    model::Trace t = base();
    int L = c.choose(c.thorough ? 6 : 5);
    Point p;
    for (int i = 0; i < L; i++) p.push_back(c.pick(alphabet()));
    t.points.push_back(p);
    if (!c.mine()) return;
    go(c, t, L <= 3 ? impl::ALL : impl::CXX | impl::CFILE);
}
// every pair and triple of short points: allocations and sharing across points
SCENARIO(entry_orders_points) {
    model::Trace t = base();
    int n = 2 + c.choose(2);
    for (int k = 0; k < n; k++) {
        Point p; int L = c.choose(n == 2 ? 3 : 2);
        for (int i = 0; i < L; i++) p.push_back(alphabet()[c.choose(n == 2 && !c.thorough ? 9 : 13)]);
        t.points.push_back(p);
    }
    if (!c.mine()) return;
    go(c, t, impl::CXX | impl::CFILE);
}
// every format and width with every boundary pattern; neighbours on both sides
SCENARIO(values) {
    const Type & ty = c.pick(gen::all_types());
    int n = ty.format == FB && ty.size == 0 ? 5 : ty.size;
    std::vector<Bytes> pats = gen::patterns(n);
    Bytes v = c.pick(pats);
    if (!c.mine()) return;
    model::Trace t;
    t.names = {"a", "b"};
    t.types = {ty, {1, FU, 1}};
    Bytes w = v; w[0] ^= 1;
    t.points = {{stmt(1), var(1, 0, v), var(0, 1, "\x7f"), var(1, 0, w), aux(9)}, {var(1, 0, v), stmt(2)}};
    go(c, t);
}
// all 8- and 16-bit values, in traces of 256 points
SCENARIO(values_exhaustive_16) {
    int f = c.choose(3); int blk = c.choose(257);
    if (!c.mine()) return;
    model::Trace t;
    t.names = {"a"};
    uint32_t fmt = f == 0 ? FU : f == 1 ? FS : FB;
    uint32_t w = blk == 256 ? 1 : 2;
    t.types = {{0, fmt, w}};
    for (int i = 0; i < 256; i++)
        t.points.push_back({stmt(i), var(0, 0, blk == 256 ? le(i, 1) : le(blk * 256 + i, 2))});
    go(c, t, impl::CXX | impl::CFILE);
}
// statement ids and auxiliary values: every single-bit and boundary pattern
SCENARIO(ids) {
    std::vector<Bytes> pats = gen::patterns(8);
    int k = c.choose(4); Bytes v = c.pick(pats);
    if (!c.mine()) return;
    uint64_t x = 0; memcpy(&x, v.data(), 8);
    model::Trace t; t.names = {"a"}; t.types = {{0, FP, 8}};
    if (k == 0) t.points = {{stmt(x)}, {stmt(~x)}};
    if (k == 1) t.points = {{stmt(1), aux(x), aux(~x), aux(x)}};
    if (k == 2) t.points = {{stmt(1), buf(x, 0)}, {buf(~x, 0), stmt(3)}};
    if (k == 3) t.points = {{stmt(1), buf(x / 2, x / 4 + 1), var(0, 0, le(x / 2 + x / 8, 8))}};
    go(c, t);
}
// name dictionaries: all lists of up to four short names, including empty ones
SCENARIO(names_small) {
    static const std::vector<std::string> N = {"", "a", "bc", "\xff\x01", "a b\n"};
    model::Trace t;
    int n = c.choose(5);
    for (int i = 0; i < n; i++) t.names.push_back(c.pick(N));
    int ty = n ? c.choose(n + 1) : 0;
    if (!c.mine()) return;
    if (ty) { t.types.push_back(Type{(uint32_t) ty - 1, FS, 4}); t.points.push_back({stmt(7), var(ty - 1, 0, le(-5, 4))}); }
    t.points.push_back({stmt(8)});
    go(c, t);
}
// counts and lengths
SCENARIO(counts) {
    std::vector<uint64_t> ns = gen::counts(c.thorough ? 600 : 300, c.thorough ? 262144 : 131072);
    int kind = c.choose(8);
    uint64_t n = c.pick(ns);
    if (!c.mine()) return;
    model::Trace t; t.names = {"x", "y"}; t.types = {{0, FU, 4}, {1, FB, 0}, {1, FP, 8}};
    Point p; p.push_back(stmt(42));
    switch (kind) {
    case 0: t.points.assign(n, p); for (uint64_t i = 0; i < n; i++) { t.points[i][0].a = i * 3; t.points[i].push_back(var(i & 1, 0, le(i, 4))); } break;
    case 1: for (uint64_t i = 0; i < n; i++) p.push_back(var(1, 0, le(i, 4))); t.points = {p, p}; break;
    case 2: for (uint64_t i = 0; i < n; i++) p.push_back(aux(~i)); t.points = {p, {aux(1)}}; break;
    case 3: for (uint64_t i = 0; i < n; i++) p.push_back(buf(i * 64, i % 3 ? 32 : 0)); p.push_back(var(0, 2, le(64 * (n / 2) + 3, 8))); t.points = {p, {var(0, 2, le(65, 8))}}; break;
    case 4: for (uint64_t i = 2; i < n; i++) t.names.push_back(gen::nm(i)); p.push_back(var(t.names.size() - 1, 0, le(1, 4))); p.push_back(var(0, 0, le(2, 4))); t.points = {p}; break;
    case 5: for (uint64_t i = 3; i < n; i++) t.types.push_back(Type{(uint32_t) i & 1, (uint32_t) (i % 2 ? FU : FS), (uint32_t) (1 << (i & 3))});
            p.push_back(var(0, t.types.size() - 1, Bytes(t.types.back().size ? t.types.back().size : 0, '\x81'))); p.push_back(var(0, 0, le(9, 4))); t.points = {p}; break;
    case 6: { Bytes b; for (uint64_t i = 0; i < n; i++) b += (char) (i * 7 + i / 256); p.push_back(var(0, 1, b)); p.push_back(aux(5)); t.points = {p, {stmt(1), var(1, 1, b)}}; break; }
    case 7: t.names.push_back(std::string(n, 'q')); t.names.push_back("tail"); p.push_back(var(3, 0, le(9, 4))); t.points = {p}; break;
    }
    c.count(mc::strf("count_kind_%d", kind));
    go(c, t, n <= 300 ? impl::ALL : kind == 0 ? impl::CXX | impl::CFILE : impl::CFILE);
}
// fixed blobs of every size up to the bound
SCENARIO(fixed_blobs) {
    std::vector<uint64_t> ns = gen::counts(300, 65536);
    uint64_t n = c.pick(ns);
    if (!c.mine()) return;
    if (n == 0) return;
    model::Trace t; t.names = {"x"}; t.types = {{0, FB, (uint32_t) n}, {0, FU, 1}};
    Bytes b; for (uint64_t i = 0; i < n; i++) b += (char) (255 - i);
    t.points = {{stmt(1), var(0, 0, b), var(0, 1, "z")}, {var(0, 1, "y"), var(0, 0, b)}};
    go(c, t, impl::CXX | impl::CFILE);
}
// every name index and type index of larger dictionaries
SCENARIO(indices) {
    int n = c.thorough ? 600 : 300;
    int k = c.choose(2), i = c.choose(n);
    if (!c.mine()) return;
    model::Trace t;
    for (int j = 0; j < n; j++) t.names.push_back(gen::nm(j));
    for (int j = 0; j < n; j++) t.types.push_back(Type{(uint32_t) (n - 1 - j), (uint32_t) (j % 3 == 0 ? FU : j % 3 == 1 ? FS : FF), (uint32_t) (j % 3 == 2 ? 4 << (j & 1) : 1 << (j & 3))});
    Bytes v(t.types[k ? i : 0].size, '\xc3');
    t.points = {{stmt(i), k ? var(0, i, v) : var(i, 0, v)}, {stmt(i), var(n - 1 - i, k ? i : 0, v)}};
    go(c, t, impl::CXX | impl::CFILE);
}
// traces whose sizes straddle the stream's buffer
SCENARIO(buffer_boundaries) {
    int pad = 3900 + c.choose(400);
    const Entry & e = c.pick(alphabet());
    if (!c.mine()) return;
    model::Trace t = base();
    t.names.push_back(std::string(pad, 'w'));
    t.points = {{stmt(3), e, e}, {e, stmt(4)}, {aux(6)}};
    go(c, t, impl::CFILE);
}
