// C11: duplicate removal keeps one result per distinct binding.
#include "query_suite.hpp"
using namespace q;

// all traces of up to N points over a set of points chosen so that bindings
// repeat with other values, statements, orders, names, types and lengths
static const std::vector<Point> & pts() {
    static const std::vector<Point> v = {
        {stmt(1), var(0, 0, le(1, 4)), var(1, 0, le(2, 4)), aux(1)},
        {stmt(1), var(0, 0, le(3, 4)), var(1, 0, le(4, 4)), aux(2)},          // other values
        {stmt(2), var(0, 0, le(1, 4)), var(1, 0, le(2, 4)), aux(3)},          // other statement
        {stmt(1), var(1, 0, le(1, 4)), var(0, 0, le(2, 4)), aux(4)},          // other order
        {stmt(1), var(0, 9, le(1, 4)), var(1, 0, le(2, 4)), aux(5)},          // other type, same type name
        {stmt(1), var(0, 0, le(1, 4)), var(0, 0, le(1, 4)), aux(6)},          // twice in one point
        {stmt(0x100000001ull), var(0, 0, le(1, 4)), aux(7)},                  // statement differs in the high half
        {stmt(1), var(0, 4, "b1"), var(0, 4, "b2"), aux(8)}};
    return v;
}
static const std::vector<std::vector<std::vector<uint32_t> > > & fvs() {
    static const std::vector<std::vector<std::vector<uint32_t> > > v = {{}, {{0}}, {{0, 9}}, {{0, 9}, {0}}, {{0}, {0}}, {{4}}, {{0, 9, 4}, {0, 9, 4}, {0}}};
    return v;
}
SCENARIO(histories) {
    int n = c.choose(c.thorough ? 6 : 5); model::Trace t = tbase(); t.types.push_back(Type{3, FU, 4});
    for (int i = 0; i < n; i++) t.points.push_back(pts()[c.choose(n >= 5 ? 7 : 8)]);
    if (!c.mine()) return;
    DB d; d.add(c, t);
    for (auto & f : fvs()) for (int k = 0; k < 2; k++) for (int h = 0; h < 2; h++) {
        if (h && (f.empty() || n > 3)) continue;
        Query x; x.fv = f; x.keep = k; if (h) x.hard = op(GREATER_THAN_OR_EQUAL, val(0), num(2));
        c.describe(show(t) + " query " + show(x)); c.state(mc::hash_str(c.desc));
        std::string r = check(c, d, 0, x); if (!r.empty()) c.fail(r);
    }
}
// bindings that differ in exactly one name, type or statement bit
SCENARIO(differences) {
    int L = 1 + c.choose(5), at = c.choose(L), kind = c.choose(3), bit = c.choose(64), rev = c.choose(2);
    if (kind != 0 && bit >= 16) return;
    if (!c.mine()) return;
    model::Trace t = tbase(); uint32_t nn = 65536, tt = 65536;
    if (kind == 1) for (uint32_t i = 0; i < nn; i++) t.names.push_back("n");
    if (kind == 2) for (uint32_t i = 0; i < tt; i++) t.types.push_back(Type{3, FU, 4});
    Point a = {stmt(1)}, b = {stmt(kind == 0 ? 1 ^ (1ull << bit) : 1)};
    Query x; x.keep = false;
    for (int i = 0; i < L; i++) {
        uint32_t n = 0, y = 0, m = kind == 1 && i == at ? 1u << bit : 0, z = kind == 2 && i == at ? 1u << bit : 0;
        if (kind == 2) { y = 16; z = z ? (16 ^ z) : 16; if (z < 16) return; }
        // the position is told apart by the type: give each its own when types do not matter
        a.push_back(var(n, y, le(i, 4))); b.push_back(var(m, z, le(i, 4)));
        if (L == 1 || kind != 2) x.fv.push_back({y, z}); else x.fv.push_back({y, z});
    }
    t.points = {a, b, a}; if (rev) t.points = {b, a, b, b};
    if (L > 3) { x.fv.resize(3); }
    DB d; d.add(c, t);
    c.describe(strf("bindings of %d differ in kind %d bit %d at %d, order %d", L, kind, bit, at, rev)); c.state(mc::hash_str(c.desc));
    std::string r = check(c, d, 0, x); if (!r.empty()) c.fail(r);
    x.keep = true; r = check(c, d, 0, x); if (!r.empty()) c.fail(r);
}
// bindings that are the same and differ in everything else: value, size of the
// allocation, being allocated at all, auxiliary values, other variables,
// counter, length of a blob
SCENARIO(same_binding) {
    static const std::vector<Type> Y = {{3, FU, 1}, {3, FU, 8}, {4, FS, 4}, {5, FP, 8}, {5, FP, 4}, {6, FF, 4}, {6, FF, 8}, {7, FB, 0}, {7, FB, 3}};
    int y = c.choose(Y.size()), n = 2 + c.choose(2); std::vector<int> alloc, value, rest;
    for (int i = 0; i < n; i++) { alloc.push_back(c.choose(4)); value.push_back(c.choose(3)); rest.push_back(c.choose(3)); }
    if (Y[y].format != FP) for (int a : alloc) if (a) return;
    if (!c.thorough && n == 3 && Y[y].format != FP && y % 2) return;
    if (!c.mine()) return;
    model::Trace t = tbase(); t.types.push_back(Y[y]);
    for (int i = 0; i < n; i++) {
        Point p; uint64_t a = 0x1000;
        if (alloc[i]) p.push_back(buf(a, alloc[i] == 1 ? 0 : alloc[i] == 2 ? 0x20 : 0x30));
        p.push_back(stmt(5));
        Bytes v = Y[y].format == FB && Y[y].size == 0 ? Bytes(value[i], 'b') : le(a + value[i] * 8, std::min(8u, Y[y].size)); v.resize(Y[y].format == FB && !Y[y].size ? v.size() : Y[y].size);
        p.push_back(var(2, 9, v));
        if (rest[i] == 1) p.push_back(aux(i));
        if (rest[i] == 2) p.push_back(var(1, 0, le(i, 4)));
        t.points.push_back(p);
    }
    DB d; d.add(c, t);
    for (int f = 1; f <= 2; f++) { Query x; x.keep = false; for (int i = 0; i < f; i++) x.fv.push_back({9});
        c.describe(show(t) + " query " + show(x)); c.state(mc::hash_str(c.desc));
        std::string r = check(c, d, 0, x); if (!r.empty()) c.fail(r); }
}
// many results: all distinct, all equal, in blocks
SCENARIO(counts) {
    static const int N[] = {1, 2, 3, 4, 10, 15, 16, 17, 31, 32, 33, 100, 255, 256, 257, 1000, 4096, 5000, 65537};
    int n = N[c.choose(19)], k = c.choose(5);
    if (!c.mine()) return;
    model::Trace t = tbase(); for (int i = 0; i < 300; i++) t.names.push_back(gen::nm(i));
    for (int i = 0; i < n; i++) {
        uint64_t st = k == 0 ? i : k == 1 ? 7 : k == 2 ? i % 17 : k == 3 ? i / 3 : 7;
        t.points.push_back({stmt(st), var(k == 4 ? i % 300 : 0, 0, le(i, 4)), aux(i)});
    }
    DB d; d.add(c, t);
    for (int f = 0; f < 2; f++) { Query x; x.keep = false; if (f) x.fv = {{0}};
        c.describe(strf("%d points, kind %d, ", n, k) + show(x)); c.state(mc::hash_str(c.desc));
        std::string r = check(c, d, 0, x); if (!r.empty()) c.fail(r); }
}
// duplicates within a point through equal and overlapping type lists
SCENARIO(within_point) {
    int L = c.choose(5); Point p = {stmt(3)};
    for (int i = 0; i < L; i++) { int k = c.choose(4); p.push_back(var(k / 2, k % 2, k % 2 ? le(i, 2) : le(i, 4))); }
    int f = 1 + c.choose(3);
    if (!c.mine()) return;
    model::Trace t = tbase(); t.points = {p, p, {stmt(3), var(0, 1, le(5, 2)), var(1, 0, le(5, 4))}};
    DB d; d.add(c, t);
    for (int w = 0; w < 3; w++) for (int s = 0; s < 2; s++) { Query x; x.keep = false; for (int i = 0; i < f; i++) x.fv.push_back(w == 0 ? std::vector<uint32_t>{0, 1} : w == 1 ? std::vector<uint32_t>{1, 0} : std::vector<uint32_t>{(uint32_t) i % 2});
        if (s) x.soft = {op(GREATER_THAN, val(0), num(1))};
        c.describe(show(t) + " query " + show(x)); c.state(mc::hash_str(c.desc));
        std::string r = check(c, d, 0, x); if (!r.empty()) c.fail(r); }
}
