// C10: soft predicates keep exactly the best results of each point.
#include "query_suite.hpp"
using namespace q;

static const std::vector<Pred> & pool() {
    static const std::vector<Pred> v = {op(EQUAL, val(0), num(1)), op(GREATER_THAN, val(0), num(1)), distinct(0, 1), op(LESS_THAN, val(0), val(1)),
        op(EQUAL, val(1), num(0)), lnot(op(EQUAL, val(0), val(1))), op(EQUAL, op(DIVIDE, num(1), val(0)), num(1)), nul(), op(EQUAL, siz(0), num(3)), many(OR, {}), many(AND, {})};
    return v;
}
// every list of up to three soft predicates, over every point of up to three values
SCENARIO(lists) {
    int n = c.choose(4); Query x; x.fv = {{0}, {0}};
    for (int i = 0; i < n; i++) x.soft.push_back(c.pick(pool()));
    int h = c.choose(3); x.hard = h == 0 ? nul() : h == 1 ? distinct(0, 1) : op(LESS_THAN_OR_EQUAL, val(0), val(1));
    x.keep = !c.flip();
    if (!c.mine()) return;
    static DB *d = NULL;
    if (!d) {
        d = new DB; model::Trace t = tbase();
        // all points with values from {0,1,2,3}, 0 to 3 variables
        for (int L = 0; L <= 3; L++) { int tot = 1; for (int i = 0; i < L; i++) tot *= 4;
            for (int k = 0; k < tot; k++) { Point p = {stmt(t.points.size() % 5)}; int z = k; for (int i = 0; i < L; i++) { p.push_back(var(i, 0, le(z % 4, 4))); z /= 4; } p.push_back(aux(t.points.size())); t.points.push_back(p); } }
        d->add(c, t);
    }
    c.describe(show(x)); c.state(mc::hash_str(c.desc));
    std::string r = check(c, *d, 0, x, x.keep); if (!r.empty()) c.fail(r);
}
// a soft predicate counts once, whatever its shape
static const std::vector<Pred> & shapes() {
    static std::vector<Pred> v;
    if (v.empty()) {
        Pred a = op(EQUAL, val(0), num(1)), b = op(LESS_THAN, val(1), num(3)), e = op(GREATER_THAN, val(0), val(1)), f = distinct(0, 1);
        for (int k : {AND, OR}) { v.push_back(many(k, {a, b})); v.push_back(many(k, {a, b, e})); v.push_back(many(k, {f})); v.push_back(many(k, {a, a, a, a})); v.push_back(lnot(many(k, {a, e}))); v.push_back(many(k, {many(k == AND ? OR : AND, {a, f}), b})); }
        v.push_back(a); v.push_back(b); v.push_back(e); v.push_back(lnot(lnot(a))); v.push_back(lnot(b)); v.push_back(op(GREATER_THAN_OR_EQUAL, op(ADD, val(0), val(1)), num(3)));
    }
    return v;
}
SCENARIO(compound) {
    int n = 1 + c.choose(3); Query x; x.fv = {{0}, {0}};
    for (int i = 0; i < n; i++) x.soft.push_back(c.pick(shapes()));
    if (!c.mine()) return;
    static DB *d = NULL;
    if (!d) {
        d = new DB; model::Trace t = tbase();
        for (int k = 0; k < 64; k++) t.points.push_back({stmt(k % 5), var(0, 0, le(k % 4, 4)), var(1, 0, le(k / 4 % 4, 4)), var(2, 0, le(k / 16, 4)), aux(k)});
        d->add(c, t);
    }
    c.describe(show(x)); c.state(mc::hash_str(c.desc));
    std::string r = check(c, *d, 0, x, true); if (!r.empty()) c.fail(r);
}
// orders of points: best points first, last, in between
SCENARIO(point_orders) {
    static const std::vector<Point> P = {
        {stmt(1), var(0, 0, le(1, 4)), var(1, 0, le(2, 4)), aux(1)}, {stmt(2), var(0, 0, le(9, 4)), var(1, 0, le(9, 4))}, {stmt(3), var(2, 1, le(1, 2))},
        {stmt(4)}, {stmt(5), var(1, 0, le(5, 4)), var(0, 0, le(5, 4)), var(2, 0, le(1, 4)), aux(2)}, {stmt(1), var(0, 0, le(7, 4)), var(1, 0, le(1, 4))}};
    int n = c.choose(c.thorough ? 6 : 5); model::Trace t = tbase(); for (int i = 0; i < n; i++) t.points.push_back(c.pick(P));
    if (!c.mine()) return;
    DB d; d.add(c, t);
    for (int f = 1; f <= 2; f++) for (auto & s : softs(f)) for (auto & h : preds(f)) for (int k = 0; k < 2; k++) for (int seed = 0; seed < 2; seed++) {
        if (n > 3 && (h.kind == NOT || seed)) continue;
        Query x; for (int i = 0; i < f; i++) x.fv.push_back({0}); x.soft = s; x.hard = h; x.keep = k; x.seed = seed * 5;
        c.describe(show(t) + " query " + show(x)); c.state(mc::hash_str(c.desc));
        std::string r = check(c, d, 0, x); if (!r.empty()) c.fail(r);
    }
}
// many soft predicates: the best satisfy 0, 1, ..., all of N
SCENARIO(counts) {
    static const int N[] = {1, 2, 3, 7, 8, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 65536, 65537, 1000};
    int n = N[c.choose(c.thorough ? 21 : 20)], k = c.choose(6), ties = c.choose(3);
    if (n > 60000 && (ties || k == 0 || k > 3)) return;
    if (!c.mine()) return;
    // variable i satisfies the predicates "value > j" for j < value
    int top = k == 0 ? 0 : k == 1 ? n : k == 2 ? n - 1 : k == 3 ? n / 2 : k == 4 ? 1 : std::max(0, n - 2);
    model::Trace t = tbase();
    for (int rep = 0; rep < 3; rep++) {
        Point p = {stmt(rep)};
        for (int i = 0; i <= ties; i++) p.push_back(var(i, 0, le(rep == 1 ? top / 2 : top, 4)));
        p.push_back(var(2, 0, le(0, 4))); p.push_back(var(1, 0, le(top ? top - 1 : 0, 4)));
        t.points.push_back(p);
    }
    DB d; d.add(c, t);
    Query x; x.fv = {{0}}; for (int j = 0; j < n; j++) x.soft.push_back(op(GREATER_THAN, val(0), num(j)));
    c.describe(strf("%d soft predicates, best satisfies %d, ties %d", n, top, ties)); c.state(mc::hash_str(c.desc));
    std::string r = check(c, d, 0, x, n < 60000); if (!r.empty()) c.fail(r);
    if (n > 60000) return;
    std::reverse(x.soft.begin(), x.soft.end()); r = check(c, d, 0, x); if (!r.empty()) c.fail(r);
}
// soft predicates on the second and third free variable, of every type
SCENARIO(types) {
    int ti = c.choose(8); const auto & f = c.pick(frees());
    if (!c.mine()) return;
    DB & d = shared(c); size_t n = f.size();
    if (!n) return;
    std::vector<Pred> ps; for (size_t i = 0; i < n; i++) { ps.push_back(op(GREATER_THAN, val(i), num(1))); ps.push_back(op(LESS_THAN, siz(i), num(10))); ps.push_back(op(EQUAL, val(i), flo(1.5))); if (i) ps.push_back(distinct(i - 1, i)); }
    for (uint32_t m = 0; m < (1u << std::min<size_t>(ps.size(), 8)); m++) {
        Query x; x.fv = f; for (size_t i = 0; i < ps.size() && i < 8; i++) if (m >> i & 1) x.soft.push_back(ps[i]);
        c.describe(strf("trace %d, ", ti) + show(x)); c.state(mc::hash_str(c.desc));
        std::string r = check(c, d, ti, x); if (!r.empty()) c.fail(r);
    }
}
