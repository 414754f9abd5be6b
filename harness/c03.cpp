// C03: a trace cut short is rejected or yields exactly its complete points.
#include "new.hpp"
#include "impl.hpp"
#include "gen.hpp"
using namespace model;

static void cut(mc::Ctx & c, const model::Trace & t, const Bytes & b, size_t at, int how = impl::ALL) {
    Bytes x = b.substr(0, at);
    c.describe(mc::strf("cut at %zu of %zu: ", at, b.size()) + show(t));
    c.state(mc::hash_str(x));
    Status st;
    std::string r = impl::read_agrees(c, x, 0, how, &st);
    c.count(st == OK ? "accepted" : "rejected");
    if (!r.empty()) c.fail(r);
    // the complete points of the prefix are those of the whole trace
    if (st == OK) {
        DTrace whole, part; decode(b, 0, whole); decode(x, 0, part);
        whole.points.resize(std::min(whole.points.size(), part.points.size()));
        c.check(diff(whole, part).empty(), "oracle: prefix disagrees with the whole");
    }
}
static model::Trace base() {
    model::Trace t;
    t.names = {"int", "", "x"};
    t.types = {{0, FU, 1}, {1, FS, 2}, {0, FS, 4}, {2, FP, 8}, {2, FB, 0}, {2, FB, 3}, {0, FF, 8}};
    return t;
}
static const std::vector<Entry> & alphabet() {
    static const std::vector<Entry> a = {
        stmt(0x8000000000000005ull), aux(0xfedcba9876543210ull), buf(0x1000, 16), var(0, 1, le(0xfffe, 2)),
        var(2, 3, le(0x1004, 8)), var(1, 4, Bytes("a\0b", 3)), var(2, 5, Bytes("\0\xff\x80", 3)),
        var(1, 0, le(0x80, 1)), var(1, 6, le(0x4004000000000000ull, 8)), var(0, 2, le(0x81, 4)), var(0, 4, ""), buf(0x1000, 0), stmt(0)};
    return a;
}
SCENARIO(last_point) {
    model::Trace t = base();
    t.points.push_back({stmt(3), buf(0x1000, 8), var(2, 3, le(0x1004, 8)), aux(2)});
    int L = c.choose(c.thorough ? 4 : 3);
    Point p; for (int i = 0; i < L; i++) p.push_back(c.pick(alphabet()));
    t.points.push_back(p);
    Bytes b = encode(t);
    int lo = L >= 2 ? b.size() - 60 : 0;        // shorter cuts are covered by shorter points
    if (lo < 0) lo = 0;
    int at = lo + c.choose(b.size() - lo);
    if (!c.mine()) return;
    cut(c, t, b, at);
}
SCENARIO(headers) {
    static const std::vector<std::string> N = {"", "a", "bc"};
    model::Trace t;
    int n = c.choose(4); for (int i = 0; i < n; i++) t.names.push_back(c.pick(N));
    int y = n ? c.choose(4) : 0;
    for (int i = 0; i < y; i++) { Type z = gen::all_types()[c.choose(3) * 4]; z.name = i % n; t.types.push_back(z); }
    int p = c.choose(2); if (p) t.points.push_back({stmt(1)});
    Bytes b = encode(t);
    int at = c.choose(b.size());
    if (!c.mine()) return;
    cut(c, t, b, at);
}
// one point of each length, three points
SCENARIO(points) {
    int n = 1 + c.choose(c.thorough ? 24 : 8);
    model::Trace t = base();
    for (int i = 0; i < n; i++) t.points.push_back({stmt(i), alphabet()[i % 13], alphabet()[(i * 5 + 1) % 13]});
    Bytes b = encode(t);
    int at = c.choose(b.size());
    if (!c.mine()) return;
    cut(c, t, b, at);
}
// cuts around the stream's buffer size, inside every kind of entry
SCENARIO(long_traces) {
    int k = c.choose(c.thorough ? 6 : 2);
    model::Trace t = base();
    if (k == 0) { t.names.push_back(std::string(4050, 'n')); for (int i = 0; i < 30; i++) t.points.push_back({stmt(i), alphabet()[i % 13]}); }
    else if (k == 1) for (int i = 0; i < 400; i++) t.points.push_back({stmt(i), alphabet()[i % 13]});
    else if (k == 2) for (int i = 0; i < 500; i++) t.types.push_back(Type{0, FU, 4});
    else if (k == 3) t.points = {{stmt(1), var(0, 4, Bytes(9000, 'b'))}, {stmt(2)}};
    else if (k == 4) { t.names.push_back(std::string(9000, 'n')); t.points = {{stmt(2)}}; }
    else for (int i = 0; i < 300; i++) t.points.push_back({stmt(i), aux(i), buf(i * 16, 16), var(2, 3, le(i * 16 + 3, 8))});
    Bytes b = encode(t);
    int at = c.choose(b.size());
    if (!c.mine()) return;
    cut(c, t, b, at, impl::CFILE);
}
// a longer value of each kind cut at each byte
SCENARIO(values) {
    const Type & ty0 = c.pick(gen::all_types());
    int n = ty0.format == FB && ty0.size == 0 ? c.choose(20) : ty0.size;
    model::Trace t; t.names = {"a"}; t.types = {ty0};
    t.points = {{stmt(1), var(0, 0, Bytes(n, '\x91'))}, {stmt(2), var(0, 0, Bytes(n, '\x12'))}};
    Bytes b = encode(t);
    int at = c.choose(b.size());
    if (!c.mine()) return;
    cut(c, t, b, at);
}
