// C02: writing a trace and reading it back loses nothing.
#include "impl.hpp"
#include "gen.hpp"
using namespace model;

static Bytes written(const ::Trace & t) { std::ostringstream os; os << t; return os.str(); }

// T lists, in every point, statement, sizes, variables, auxiliary values.
static void go(mc::Ctx & c, const model::Trace & t) {
    Bytes b = encode(t);
    c.describe(show(t));
    c.state(mc::hash_str(b));
    DTrace want;
    c.check(decode(b, 0, want) == OK, "generator: trace is not well formed");
    c.step(want.points.size() + 1);
    ::Trace orig = impl::make(want);
    Bytes w = written(orig);
    DTrace ref;
    c.check(decode(w, 0, ref) == OK, "written bytes are not a well-formed trace: " + hex(w));
    std::string r = diff(want, ref);
    if (!r.empty()) c.fail("written bytes do not describe the trace: " + r + " bytes " + hex(w));
    std::istringstream is(w);
    ::Trace back(is);
    r = diff(want, impl::dtrace(back));
    if (!r.empty()) c.fail("read back: " + r);
    c.check(back == orig && orig == back, "trace read back is not equal to the original");
    c.check(hash_value(back) == hash_value(orig), "trace read back has another hash");
    c.check(written(back) == w, "writing the copy gives other bytes");
    // a trace that came from a file
    std::istringstream is2(b);
    ::Trace file(is2);
    c.check(written(file) == w, "a trace read from a file is written differently");
    c.check(file == back, "traces read from equivalent files differ");
}
static model::Trace base() {
    model::Trace t;
    t.names = {"int", "p", "x", "", "blob"};
    t.types = {{0, FU, 1}, {1, FS, 2}, {0, FS, 4}, {1, FP, 8}, {4, FB, 0}, {2, FB, 3}, {3, FF, 4}, {3, FF, 8}, {2, FU, 8}, {0, FP, 4}};
    return t;
}
static const std::vector<Entry> & vars() {
    static const std::vector<Entry> a = {
        var(0, 1, le(0xfffe, 2)), var(2, 3, le(0x1004, 8)), var(3, 4, Bytes("a\0b", 3)), var(4, 5, Bytes("\0\xff\x80", 3)),
        var(1, 0, le(0x80, 1)), var(1, 7, le(0x4004000000000000ull, 8)), var(0, 4, ""), var(0, 9, le(0x1008, 4)),
        var(2, 6, le(0x40200000, 4)), var(2, 8, le(0xfedcba9876543210ull, 8)), var(1, 2, le(0x80000000, 4))};
    return a;
}
static const std::vector<Entry> & bufs() {
    static const std::vector<Entry> a = {buf(0x1000, 16), buf(0x1000, 0), buf(0x1004, 4), buf(0xffffffffffff0000ull, 0x10)};
    return a;
}
static Point point(mc::Ctx & c, int mb, int mv, int ma) {
    Point p;
    p.push_back(stmt(c.flip() ? 0xfedcba9876543210ull : 0));
    for (int n = c.choose(mb + 1); n > 0; n--) p.push_back(c.pick(bufs()));
    for (int n = c.choose(mv + 1); n > 0; n--) p.push_back(c.pick(vars()));
    for (int n = c.choose(ma + 1), i = 0; i < n; i++) p.push_back(aux(i ? 0 : 0x8877665544332211ull));
    return p;
}
SCENARIO(one_point) {
    model::Trace t = base();
    t.points.push_back(point(c, 2, c.thorough ? 3 : 2, 2));
    if (!c.mine()) return;
    go(c, t);
}
SCENARIO(three_variables) {
    model::Trace t = base();
    Point p = {stmt(7), buf(0x1000, 32)};
    for (int i = 0; i < 3; i++) p.push_back(c.pick(vars()));
    t.points = {p};
    if (!c.mine()) return;
    go(c, t);
}
SCENARIO(two_points) {
    model::Trace t = base();
    for (int i = 0; i < 2; i++) t.points.push_back(point(c, 1, 1, 1));
    if (!c.mine()) return;
    go(c, t);
}
SCENARIO(values) {
    const Type & ty = c.pick(gen::all_types());
    int n = ty.format == FB && ty.size == 0 ? 5 : ty.size;
    std::vector<Bytes> pats = gen::patterns(n);
    Bytes v = c.pick(pats);
    if (!c.mine()) return;
    model::Trace t;
    t.names = {"a", "b"};
    t.types = {ty, {1, FU, 1}};
    Bytes w = v; w[0] ^= 1;
    t.points = {{stmt(1), var(1, 0, v), var(0, 1, "\x7f"), var(1, 0, w), aux(9)}, {stmt(2), var(1, 0, v)}};
    go(c, t);
}
SCENARIO(values_exhaustive_16) {
    int f = c.choose(3); int blk = c.choose(257);
    if (!c.mine()) return;
    model::Trace t;
    t.names = {"a"};
    uint32_t fmt = f == 0 ? FU : f == 1 ? FS : FB;
    t.types = {{0, fmt, blk == 256 ? 1u : 2u}};
    for (int i = 0; i < 256; i++)
        t.points.push_back({stmt(i), var(0, 0, blk == 256 ? le(i, 1) : le(blk * 256 + i, 2))});
    go(c, t);
}
SCENARIO(ids) {
    std::vector<Bytes> pats = gen::patterns(8);
    int k = c.choose(3); Bytes v = c.pick(pats);
    if (!c.mine()) return;
    uint64_t x = 0; memcpy(&x, v.data(), 8);
    model::Trace t; t.names = {"a"}; t.types = {{0, FP, 8}};
    if (k == 0) t.points = {{stmt(x)}, {stmt(~x)}};
    if (k == 1) t.points = {{stmt(1), aux(x), aux(~x), aux(x)}};
    if (k == 2) t.points = {{stmt(1), buf(x / 2, x / 4 + 1), var(0, 0, le(x / 2 + x / 8, 8))}, {stmt(2), buf(x / 2, 0)}};
    go(c, t);
}
SCENARIO(names_small) {
    static const std::vector<std::string> N = {"", "a", "bc", "\xff\x01", "a b\n"};
    model::Trace t;
    int n = c.choose(5);
    for (int i = 0; i < n; i++) t.names.push_back(c.pick(N));
    int ty = n ? c.choose(n + 1) : 0;
    if (!c.mine()) return;
    if (ty) { t.types.push_back(Type{(uint32_t) ty - 1, FS, 4}); t.points.push_back({stmt(7), var(ty - 1, 0, le(-5, 4))}); }
    t.points.push_back({stmt(8)});
    go(c, t);
}
SCENARIO(counts) {
    std::vector<uint64_t> ns = gen::counts(c.thorough ? 600 : 300, c.thorough ? 262144 : 65536);
    int kind = c.choose(9);
    uint64_t n = c.pick(ns);
    if (!c.mine()) return;
    model::Trace t; t.names = {"x", "y"}; t.types = {{0, FU, 4}, {1, FB, 0}, {1, FP, 8}};
    Point p; p.push_back(stmt(42));
    switch (kind) {
    case 0: t.points.assign(n, p); for (uint64_t i = 0; i < n; i++) { t.points[i][0].a = i * 3; t.points[i].push_back(var(i & 1, 0, le(i, 4))); } break;
    case 1: for (uint64_t i = 0; i < n; i++) p.push_back(var(1, 0, le(i, 4))); t.points = {p, p}; break;
    case 2: for (uint64_t i = 0; i < n; i++) p.push_back(aux(~i)); t.points = {p, {stmt(3), aux(1)}}; break;
    case 3: for (uint64_t i = 0; i < n; i++) p.push_back(buf(i * 64, i % 3 ? 32 : 0)); p.push_back(var(0, 2, le(64 * (n / 2) + 3, 8))); t.points = {p, {stmt(0), var(0, 2, le(65, 8))}}; break;
    case 4: for (uint64_t i = 2; i < n; i++) t.names.push_back(gen::nm(i)); p.push_back(var(t.names.size() - 1, 0, le(1, 4))); p.push_back(var(0, 0, le(2, 4))); t.points = {p}; break;
    case 5: for (uint64_t i = 3; i < n; i++) t.types.push_back(Type{(uint32_t) i & 1, (uint32_t) (i % 2 ? FU : FS), (uint32_t) (1 << (i & 3))});
            p.push_back(var(0, t.types.size() - 1, Bytes(t.types.back().size, '\x81'))); p.push_back(var(0, 0, le(9, 4))); t.points = {p}; break;
    case 6: { Bytes b; for (uint64_t i = 0; i < n; i++) b += (char) (i * 7 + i / 256); p.push_back(var(0, 1, b)); p.push_back(aux(5)); t.points = {p, {stmt(1), var(1, 1, b)}}; break; }
    case 7: t.names.push_back(std::string(n, 'q')); t.names.push_back("tail"); p.push_back(var(3, 0, le(9, 4))); t.points = {p}; break;
    case 8: { if (!n) return; t.types.push_back(Type{0, FB, (uint32_t) n}); Bytes b; for (uint64_t i = 0; i < n; i++) b += (char) (i * 7 + i / 256); p.push_back(var(0, 3, b)); p.push_back(var(0, 0, le(9, 4))); t.points = {p, {stmt(1), var(1, 3, b)}}; break; }
    }
    go(c, t);
}
// every ordered pair of (format, width) in one point
SCENARIO(type_pairs) {
    const Type & a = c.pick(gen::all_types()); const Type & b = c.pick(gen::all_types());
    int k = c.choose(3);
    if (!c.mine()) return;
    model::Trace t; t.names = {"a", "b"}; t.types = {a, b};
    int na = a.size ? a.size : 4, nb = b.size ? b.size : (k == 2 ? 0 : 6);
    static const char fill[] = {'\x90', '\x01', '\xff'};
    t.points = {{stmt(1), var(0, 0, Bytes(na, fill[k])), var(1, 1, Bytes(nb, fill[2 - k])), var(1, 0, Bytes(na, fill[2 - k]))},
                {stmt(1), var(1, 1, Bytes(nb, fill[2 - k]))}};
    go(c, t);
}
