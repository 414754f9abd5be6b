// query_suite.hpp -- traces and queries shared by the query properties, and a
// product of them that every one of these checks explores.
#ifndef QUERY_SUITE_HPP
#define QUERY_SUITE_HPP
#include "query.hpp"
namespace q {
// types: 0 u4, 1 s2, 2 pointer, 3 double, 4 blob, 5 float, 6 u8, 7 fixed blob, 8 s8
static inline model::Trace tbase() {
    model::Trace t; t.names = {"a", "b", "c", "int", "short", "ptr", "double", "blob"};
    t.types = {{3, FU, 4}, {4, FS, 2}, {5, FP, 8}, {6, FF, 8}, {7, FB, 0}, {3, FF, 4}, {3, FU, 8}, {7, FB, 2}, {4, FS, 8}};
    return t;
}
static inline Bytes fl(float f) { return Bytes((const char *) &f, 4); }
static inline Bytes db(double d) { return Bytes((const char *) &d, 8); }
static inline const std::vector<model::Trace> & traces() {
    static std::vector<model::Trace> v;
    if (v.empty()) {
        model::Trace t = tbase(); v.push_back(t);                                // no points
        t.points = {{}}; v.push_back(t);                                         // an empty point
        t.points = {{stmt(1)}, {stmt(2), aux(5)}, {stmt(1)}}; v.push_back(t);    // no variables
        t.points = {{stmt(1), var(0, 0, le(1, 4)), var(1, 0, le(2, 4)), var(2, 1, le(-1, 2)), aux(9)}}; v.push_back(t);
        // the same bindings again and again, with other values
        t.points = {{stmt(1), var(0, 0, le(1, 4)), var(1, 0, le(2, 4))}, {stmt(1), var(0, 0, le(7, 4)), var(1, 0, le(2, 4)), aux(1)},
                    {stmt(2), var(0, 0, le(1, 4)), var(1, 0, le(2, 4))}, {stmt(1), var(1, 0, le(2, 4)), var(0, 0, le(1, 4))}, {stmt(2), var(0, 1, le(1, 2))}}; v.push_back(t);
        // pointers with and without sizes; blobs; floats
        t.points = {{stmt(3), buf(0x1000, 0x10), var(0, 2, le(0x1004, 8)), var(1, 2, le(0x1010, 8)), var(2, 2, le(0x2000, 8)), var(0, 4, "blob"), var(1, 4, ""), aux(1), aux(2)},
                    {stmt(4), var(0, 3, db(1.5)), var(1, 3, db(-2.25)), var(0, 5, fl(1.5)), var(2, 0, le(1, 4)), var(2, 1, le(2, 2))}}; v.push_back(t);
        // repeated variables in one point
        t.points = {{stmt(5), var(0, 0, le(4, 4)), var(0, 0, le(4, 4)), var(0, 0, le(5, 4)), var(0, 1, le(4, 2))}, {stmt(5), var(0, 0, le(4, 4))}}; v.push_back(t);
        // statements over the whole range
        t.points.clear();
        for (uint64_t s : {0ull, 1ull, 2ull, 3ull, 0x8000000000000000ull, 0x8000000000000001ull, 0xffffffffffffffffull, 0x100000000ull, 0x100000001ull})
            t.points.push_back({stmt(s), var(0, 0, le(s, 4)), var(1, 6, le(s, 8)), aux(s)});
        v.push_back(t);
    }
    return v;
}
static inline const std::vector<std::vector<std::vector<uint32_t> > > & frees() {
    static const std::vector<std::vector<std::vector<uint32_t> > > v = {
        {}, {{0}}, {{0, 1}}, {{0}, {0}}, {{0}, {1}}, {{0, 1}, {1, 0}}, {{2}}, {{2, 0}, {2, 4}}, {{3, 5}, {0, 1}}, {{0}, {0}, {0, 1}}, {{}}, {{0}, {}}, {{0, 0}}, {{77}}, {{4}, {2}}, {{0, 1, 2, 3, 4, 5, 6}}};
    return v;
}
// predicates over N free variables
static inline std::vector<Pred> preds(size_t n) {
    std::vector<Pred> v; v.push_back(nul());
    if (n >= 1) {
        v.push_back(op(EQUAL, val(0), num(1)));
        v.push_back(op(LESS_THAN, val(0), num(5)));
        v.push_back(op(GREATER_THAN_OR_EQUAL, siz(0), num(1)));
        v.push_back(lnot(op(GREATER_THAN, val(0), sig(-1))));
    }
    if (n >= 2) {
        v.push_back(distinct(0, 1));
        v.push_back(op(LESS_THAN, val(0), val(1)));
        v.push_back(many(AND, {distinct(0, 1), op(LESS_THAN_OR_EQUAL, val(1), val(0))}));
        v.push_back(op(EQUAL, op(ADD, val(0), val(1)), num(3)));
    }
    if (n >= 3) v.push_back(many(AND, {distinct(0, 1), distinct(1, 2), distinct(0, 2)}));
    return v;
}
static inline std::vector<std::vector<Pred> > softs(size_t n) {
    std::vector<std::vector<Pred> > v; v.push_back({});
    if (n == 0) return v;
    v.push_back({op(EQUAL, val(0), num(2))});
    v.push_back({op(GREATER_THAN, val(0), num(3)), op(LESS_THAN, val(0), num(100))});
    v.push_back({nul(), op(EQUAL, val(n - 1), num(4)), op(EQUAL, val(n - 1), num(4))});
    if (n >= 2) v.push_back({distinct(0, 1), op(LESS_THAN, val(0), val(1)), op(EQUAL, val(0), num(1))});
    return v;
}
static inline DB & shared(mc::Ctx & c) {        // one database with all traces, per process
    static DB *d = NULL;
    if (!d) { d = new DB; for (auto & t : traces()) d->add(c, t); }
    return *d;
}
#ifndef NO_PRODUCT
SCENARIO(product) {
    int ti = c.choose(traces().size());
    Query x; x.fv = c.pick(frees());
    x.hard = c.pick(preds(x.fv.size())); x.soft = c.pick(softs(x.fv.size()));
    x.keep = !c.flip();
    int m = c.choose(4);
    if (m == 1) { x.mask = ~0ull; x.st = 1; }
    if (m == 2) { x.mask = 1; x.st = 1; }
    if (m == 3) { x.mask = 0x8000000000000000ull; x.st = 0; }
    int s = c.choose(2); if (s) x.seed = 1 + ti * 7 + m;
    if (!c.mine()) return;
    c.describe(strf("trace %d, ", ti) + show(x)); c.state(mc::hash_str(c.desc));
    DB & d = shared(c);
    std::string r = check(c, d, ti, x, true);
    if (!r.empty()) c.fail(r);
}
#endif
} // namespace q
#endif
