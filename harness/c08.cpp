// C08: a query returns every satisfying binding and nothing else.
#include "query_suite.hpp"
using namespace q;

// every point with up to 4 variables from 6, every list of up to 3 free
// variables over the type subsets
static const std::vector<Entry> & vars() {
    static const std::vector<Entry> v = {var(0, 0, le(1, 4)), var(1, 0, le(2, 4)), var(0, 1, le(1, 2)), var(0, 2, le(0x1008, 8)), var(2, 4, "xy"), var(1, 0, le(1, 4))};
    return v;
}
static const std::vector<std::vector<uint32_t> > & subsets() {
    static const std::vector<std::vector<uint32_t> > v = {{0}, {1, 0}, {2}, {0, 1, 2, 4}, {}, {4, 4, 9}};
    return v;
}
SCENARIO(bindings) {
    int L = c.choose(c.thorough ? 5 : 4); Point p = {stmt(0x9000000000000007ull), buf(0x1000, 0x20)};
    for (int i = 0; i < L; i++) p.push_back(vars()[c.choose(6)]);
    if (!c.mine()) return;
    model::Trace t = tbase(); p.push_back(aux(3)); p.push_back(aux(~0ull));
    t.points = {{stmt(6), var(0, 0, le(9, 4))}, p, {stmt(8), var(2, 1, le(-9, 2)), aux(4)}};
    DB d; d.add(c, t);
    for (int n = 0; n <= 3; n++) {
        int tot = 1; for (int i = 0; i < n; i++) tot *= 6;
        for (int k = 0; k < tot; k++) {
            Query x; int z = k; for (int i = 0; i < n; i++) { x.fv.push_back(subsets()[z % 6]); z /= 6; }
            std::vector<Pred> ps = {nul()};
            if (n >= 1) ps.push_back(op(GREATER_THAN, val(n - 1), num(1)));
            if (n >= 2) ps.push_back(distinct(0, n - 1));
            for (auto & pr : ps) {
                x.hard = pr;
                c.describe(show(t) + " query " + show(x)); c.state(mc::hash_str(c.desc));
                std::string r = check(c, d, 0, x, n < 3);
                if (!r.empty()) c.fail(r);
            }
        }
    }
}
// many variables, many free variables, many allowed types
SCENARIO(sizes) {
    static const int N[] = {1, 2, 3, 4, 5, 8, 9, 16, 17, 33, 41, 100, 256, 257, 300, 1000};
    int n = N[c.choose(16)], f = 1 + c.choose(6), w = c.choose(4), pr = c.choose(3);
    double tot = 1; for (int i = 0; i < f; i++) tot *= n;
    if (tot > (c.thorough ? 100000 : w == 0 && pr == 1 ? 70000 : 12000)) return;
    if (!c.mine()) return;
    model::Trace t = tbase(); Point p = {stmt(1)};
    int types = w >= 2 ? 40 : 1;
    for (int i = 0; i < types; i++) t.types.push_back(Type{3, FU, 4});
    for (int i = 0; i < n; i++) { t.names.push_back(gen::nm(i)); p.push_back(var(t.names.size() - 1, 9 + i % types, le(i, 4))); p.push_back(var(1, 1, le(i, 2))); }
    t.points = {p, {stmt(2), aux(1)}};
    Query x; for (int i = 0; i < f; i++) { std::vector<uint32_t> a; for (int k = 0; k < types; k++) a.push_back(9 + (w % 2 ? types - 1 - k : k)); if (w == 3 && i) a.pop_back(); x.fv.push_back(a); }
    if (pr == 1) x.hard = op(EQUAL, val(f - 1), num(n - 1));
    if (pr == 2) x.hard = op(LESS_THAN, val(0), num(2));
    c.describe(strf("%d variables, %d free variables, %d types ", n, f, types) + show(x.hard)); c.state(mc::hash_str(c.desc) + w);
    DB d; d.add(c, t);
    std::string r = check(c, d, 0, x, true);
    if (!r.empty()) c.fail(r);
}
// type indices far apart: only the very type is allowed
SCENARIO(type_indices) {
    static const std::vector<uint32_t> X = {0, 1, 127, 128, 255, 256, 257, 511, 512, 32768, 65535, 65536, 65537, 65792, 131072};
    int i = c.choose(X.size()), f = 1 + c.choose(2);
    if (!c.mine()) return;
    model::Trace t; t.names = {"a", "b", "T"};
    for (int k = 0; k < 131073; k++) t.types.push_back(Type{2, FU, 4});
    Point p = {stmt(1)}; for (auto y : X) p.push_back(var(y & 1, y, le(y, 4)));
    t.points = {p};
    DB d; d.add(c, t); d.t[0].points.resize(1);
    Query x; x.fv = {{X[i]}}; if (f == 2) x.fv.push_back({X[(i + 1) % X.size()], X[(i + 5) % X.size()]});
    c.describe(strf("type %u of %zu, %d free variables", X[i], t.types.size(), f)); c.state(mc::hash_str(c.desc));
    std::string r = check(c, d, 0, x, true);
    if (!r.empty()) c.fail(r);
}
// many points
SCENARIO(points) {
    static const int N[] = {0, 1, 2, 3, 10, 255, 256, 257, 1000, 5000, 65537};
    int n = N[c.choose(11)], f = c.choose(3), k = c.choose(3);
    if (!c.mine()) return;
    model::Trace t = tbase();
    for (int i = 0; i < n; i++) { Point p = {stmt(k == 2 ? 7 : i)}; if (k != 1 || i % 3) p.push_back(var(0, 0, le(i, 4))); if (i % 2) p.push_back(var(1, 0, le(3, 4))); p.push_back(aux(i)); t.points.push_back(p); }
    Query x; for (int i = 0; i < f; i++) x.fv.push_back({0});
    c.describe(strf("%d points, %d free variables, kind %d", n, f, k)); c.state(mc::hash_str(c.desc));
    DB d; d.add(c, t);
    std::string r = check(c, d, 0, x, true);
    if (r.empty() && f) { x.hard = op(EQUAL, val(0), num(3)); r = check(c, d, 0, x, true); }
    if (!r.empty()) c.fail(r);
}
// every format and width comes through unchanged
SCENARIO(values) {
    const Type & ty = c.pick(gen::all_types());
    std::vector<Bytes> pats = gen::patterns(ty.format == FB && ty.size == 0 ? 5 : ty.size);
    Bytes v = c.pick(pats);
    if (!c.mine()) return;
    model::Trace t = tbase(); t.types.push_back(ty); uint32_t k = t.types.size() - 1;
    uint64_t a = 0; memcpy(&a, v.data(), std::min<size_t>(8, v.size()));
    t.points = {{stmt(a), buf(a & 0x7ffffffffffffff0ull, 0x40), var(0, k, v), var(1, 0, le(3, 4)), aux(~a)}, {stmt(~a), aux(a), var(2, k, v)}};
    DB d; d.add(c, t);
    c.describe(show(t)); c.state(mc::hash_str(c.desc));
    Query x; x.fv = {{k}}; std::string r = check(c, d, 0, x, true);
    if (r.empty()) { x.fv = {{0}, {k}}; r = check(c, d, 0, x, true); }
    if (r.empty()) { x.fv = {{k, 0}, {k}}; r = check(c, d, 0, x, true); }
    if (!r.empty()) c.fail(r);
}
// several traces in one database, with their own dictionaries
SCENARIO(several_traces) {
    int n = 1 + c.choose(4), k = c.choose(4);
    std::vector<int> ix; for (int i = 0; i < n; i++) ix.push_back(c.choose(8));
    if (k >= n) return;
    if (!c.mine()) return;
    DB d; std::string s; for (int i : ix) { d.add(c, traces()[i]); s += strf(" %d", i); }
    for (auto & f : frees()) {
        Query x; x.fv = f;
        c.describe("traces" + s + strf(", query %d: ", k) + show(x)); c.state(mc::hash_str(c.desc));
        std::string r = check(c, d, k, x); if (!r.empty()) c.fail(r);
    }
}
