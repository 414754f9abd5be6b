// C09: predicates are evaluated with exact arithmetic and fixed logic.
#include "query_suite.hpp"
using namespace q;
static const int CMP[] = {GREATER_THAN, GREATER_THAN_OR_EQUAL, LESS_THAN, LESS_THAN_OR_EQUAL, EQUAL};
static const int ARI[] = {ADD, SUBTRACT, MULTIPLY, DIVIDE};

// The value pool: every format and width at its boundaries, plus sizes and
// values that do not exist.
static const std::vector<uint64_t> & ints() {
    static const std::vector<uint64_t> v = {0, 1, 2, 3, 127, 128, 255, 32767, 32768, 65535, 0x7fffffffull, 0x80000000ull, 0xffffffffull, 0x100000000ull,
        0x1fffffffffffffull, 0x20000000000000ull, 0x20000000000001ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0x8000000000000001ull, 0xfffffffffffffffeull, 0xffffffffffffffffull};
    return v;
}
static const std::vector<double> & doubles() {
    static const std::vector<double> v = {0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1.5, 3.0, 2.0, 0.1, 255.0, 1e10, -1e10, 9007199254740992.0, 9007199254740993.0, 1.0000000000000002, 4294967296.0, 9223372036854775808.0, 18446744073709551616.0, -9223372036854775808.0, 1e100, -1e100, 1e-100, 5e-324, 1.7976931348623157e308};
    return v;
}
// operands: constants of every kind, and variables of every type at each value
struct Operand { int kind; uint64_t u; double d; };  // 0 unsigned const, 1 signed const, 2 double const, 3.. variable of type, 100 size, 101 no size, 102 blob
static std::vector<Operand> & operands() {
    static std::vector<Operand> v;
    if (v.empty()) {
        for (uint64_t u : ints()) { v.push_back({0, u, 0}); v.push_back({1, u, 0}); v.push_back({6, u, 0}); v.push_back({8, u, 0}); }
        for (uint64_t u : {0ull, 1ull, 0x7fffull, 0x8000ull, 0xffffull}) v.push_back({1 + 50, u, 0});           // s2 variable
        for (uint64_t u : {0ull, 1ull, 0x7fffffffull, 0x80000000ull, 0xffffffffull}) { v.push_back({0 + 50, u, 0}); v.push_back({9 + 50, u, 0}); }
        for (uint64_t u : {0ull, 0x7full, 0x80ull, 0xffull}) { v.push_back({10 + 50, u, 0}); v.push_back({11 + 50, u, 0}); }
        for (uint64_t u : {0ull, 1ull, 0x8000000000000000ull, 0xffffffffffffffffull}) v.push_back({2 + 50, u, 0}); // pointer
        for (double d : doubles()) { v.push_back({2, 0, d}); v.push_back({3 + 50, 0, d}); }
        for (float f : {0.0f, 1.0f, -1.5f, 0.1f, 16777216.0f, 3.0f, 1e30f, -1e-30f}) v.push_back({5 + 50, 0, f});
        v.push_back({100, 8, 0}); v.push_back({100, 0, 0}); v.push_back({101, 0, 0}); v.push_back({102, 0, 0});
    }
    return v;
}
static model::Trace base() {
    model::Trace t = tbase();
    t.types.push_back(Type{4, FS, 4}); t.types.push_back(Type{4, FS, 1}); t.types.push_back(Type{4, FU, 1});   // 9 10 11
    return t;
}
// adds what the operand needs to the point and free variables
static Pred use(const Operand & o, model::Trace & t, Point & p, Query & x) {
    if (o.kind == 0) return num(o.u);
    if (o.kind == 1) return sig((int64_t) o.u);
    if (o.kind == 2) return flo(o.d);
    uint32_t ty; Bytes v; bool size = false;
    if (o.kind == 6 || o.kind == 8) { ty = o.kind; v = le(o.u, 8); }
    else if (o.kind == 100) { ty = 2; size = true; p.push_back(buf(0x5000, 8)); v = le(0x5000 + 8 - o.u, 8); }
    else if (o.kind == 101) { ty = 2; size = true; v = le(0x900, 8); }
    else if (o.kind == 102) { ty = 4; v = "blob"; }
    else { ty = o.kind - 50; v = ty == 3 ? db(o.d) : ty == 5 ? fl((float) o.d) : le(o.u, t.types[ty].size); }
    // a type of its own, so that the free variable binds exactly this one
    t.types.push_back(t.types[ty]); uint32_t k = t.types.size() - 1;
    p.push_back(var(0, k, v)); x.fv.push_back({k});
    return size ? siz(x.fv.size() - 1) : val(x.fv.size() - 1);
}
static void one(mc::Ctx & c, const model::Trace & t, const Query & x) {
    c.describe(show(x) + " on " + show(t)); c.state(mc::hash_str(c.desc));
    DB d; d.add(c, t);
    std::string r = check(c, d, 0, x); if (!r.empty()) c.fail(r);
}
static void dummy(model::Trace & t, Point & p, Query & x) {
    if (x.fv.empty()) { p.push_back(var(0, 0, le(0, 4))); x.fv.push_back({0}); }
}
// every comparison of every pair of operands
SCENARIO(comparisons) {
    const Operand & a = c.pick(operands()); const Operand & b = c.pick(operands());
    if (!c.mine()) return;
    model::Trace t = base(); Point p = {stmt(1)}; Query x;
    Pred pa = use(a, t, p, x), pb = use(b, t, p, x);
    dummy(t, p, x); t.points = {p};
    DB d; d.add(c, t);
    for (int k : CMP) for (int n = 0; n < 2; n++) {
        x.hard = op(k, pa, pb); if (n) x.hard = lnot(x.hard);
        c.describe(show(x) + " on " + show(t)); c.state(mc::hash_str(c.desc));
        std::string r = check(c, d, 0, x); if (!r.empty()) c.fail(r);
    }
}
// every arithmetic operator, the result against exact neighbours
static std::vector<Operand> & small() {
    static std::vector<Operand> v;
    if (v.empty()) {
        for (uint64_t u : {0ull, 1ull, 3ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0xffffffffffffffffull, 0x100000000ull}) { v.push_back({0, u, 0}); v.push_back({8, u, 0}); }
        for (uint64_t u : {1ull, 0x8000000000000000ull, 0xffffffffffffffffull, (unsigned long long) -3}) { v.push_back({1, u, 0}); v.push_back({6, u, 0}); }
        for (double d : {0.0, 0.5, -2.0, 3.0, 1e10, 0.1}) { v.push_back({2, 0, d}); v.push_back({3 + 50, 0, d}); }
        v.push_back({5 + 50, 0, 2.5}); v.push_back({1 + 50, 0xfffe, 0}); v.push_back({100, 8, 0}); v.push_back({101, 0, 0}); v.push_back({102, 0, 0}); v.push_back({50, 7, 0});
    }
    return v;
}
SCENARIO(arithmetic) {
    const Operand & a = c.pick(small()); const Operand & b = c.pick(small());
    if (!c.mine()) return;
    model::Trace t = base(); Point p = {stmt(1)}; Query x;
    Pred pa = use(a, t, p, x), pb = use(b, t, p, x);
    dummy(t, p, x); t.points = {p};
    DB d; d.add(c, t);
    std::vector<const DVar *> bind; for (size_t i = 0; i < x.fv.size(); i++) for (auto & v : d.t[0].points[0].vars) if (v.type == x.fv[i][0]) bind.push_back(&v);
    for (int k : ARI) {
        Pred e = op(k, pa, pb); Val v = eval(e, bind);
        std::vector<Pred> rhs = {num(0), sig(-1), num(1), flo(0.5), num(~0ull), sig(INT64_MIN), e, op(ARI[(k + 1) % 4], pb, pa), op(k, pb, pa), pa, pb};
        // the exact result, if it is a 64-bit integer, and its neighbours
        if (v.valid && denominator(v.r) == 1) for (int dd = -1; dd <= 1; dd++) {
            Int z = numerator(v.r) + dd;
            if (z >= 0 && z <= Int(UINT64_MAX)) rhs.push_back(num(z.convert_to<uint64_t>()));
            if (z < 0 && z >= Int(INT64_MIN)) rhs.push_back(sig(z.convert_to<int64_t>()));
            // beyond 64 bits: as a sum of two
            if (z > Int(UINT64_MAX) && z <= Int(UINT64_MAX) * 2) rhs.push_back(op(ADD, num(~0ull), num(Int(z - Int(UINT64_MAX)).convert_to<uint64_t>())));
        }
        for (auto & r : rhs) for (int cm : CMP) {
            x.hard = op(cm, e, r);
            c.describe(show(x) + " on " + show(t)); c.state(mc::hash_str(c.desc));
            std::string m = check(c, d, 0, x); if (!m.empty()) c.fail(m);
        }
    }
}
// nested arithmetic: three operands, both shapes
SCENARIO(nested_arithmetic) {
    static const std::vector<Pred> V = {num(0), num(3), sig(-7), num(~0ull), sig(INT64_MIN), flo(0.25), num(1ull << 63)};
    int k = ARI[c.choose(4)], l = ARI[c.choose(4)]; Pred a = c.pick(V), b = c.pick(V), e = c.pick(V); int sh = c.choose(2);
    if (!c.mine()) return;
    model::Trace t = base(); Query x; x.fv = {{0}}; t.points = {{stmt(1), var(0, 0, le(0, 4))}};
    static DB *d = NULL; if (!d) { d = new DB; d->add(c, t); }
    Pred ex = sh ? op(k, op(l, a, b), e) : op(k, a, op(l, b, e));
    for (auto & r : std::vector<Pred>{num(0), num(1), sig(-4), flo(0.75), num(~0ull), op(MULTIPLY, num(~0ull), num(~0ull)), op(SUBTRACT, sig(INT64_MIN), num(~0ull))}) for (int cm : CMP) {
        x.hard = op(cm, ex, r);
        c.describe(show(x)); c.state(mc::hash_str(c.desc));
        std::string m = check(c, *d, 0, x); if (!m.empty()) c.fail(m);
    }
}
// logic: every tree of and/or/not up to depth 3 over true, false, undefined
static Pred atom(int i) {
    switch (i) {
    case 0: return op(EQUAL, val(0), num(1));                       // true
    case 1: return op(EQUAL, val(0), num(2));                       // false
    case 2: return op(EQUAL, op(DIVIDE, num(1), num(0)), num(1));   // no value: false
    default: return distinct(0, 1);
    }
}
static Pred tree(mc::Ctx & c, int depth) {
    int k = c.choose(depth ? 4 : 1);
    if (k == 0) return atom(c.choose(depth ? 4 : 3));
    if (k == 3) return lnot(tree(c, depth - 1));
    int n = c.choose(depth == 1 ? 4 : 3); std::vector<Pred> ch;
    for (int i = 0; i < n; i++) ch.push_back(tree(c, depth - 1));
    return many(k == 1 ? AND : OR, ch);
}
SCENARIO(logic) {
    Pred p = tree(c, 2);
    if (!c.mine()) return;
    model::Trace t = base(); Query x; x.fv = {{0}, {1}}; t.points = {{stmt(1), var(0, 0, le(1, 4)), var(0, 1, le(1, 2))}};
    static DB *d = NULL; if (!d) { d = new DB; d->add(c, t); }
    x.hard = p; c.describe(show(x)); c.state(mc::hash_str(c.desc));
    std::string m = check(c, *d, 0, x, true); if (!m.empty()) c.fail(m);
}
// and/or of many operands: every position of the deciding one
SCENARIO(wide_logic) {
    int lim = c.thorough ? 40 : 20; static const int BIG[] = {127, 128, 255, 256, 257, 300, 1000, 65535, 65536, 65537};
    int n = c.choose(lim + (c.thorough ? 10 : 9)), k = c.choose(2), inv = c.choose(2); bool big = n >= lim; if (big) n = BIG[n - lim];
    int at = big ? c.choose(6) : n ? c.choose(n + 1) : 0; if (big) at = at == 0 ? 0 : at == 1 ? n / 2 : at == 2 ? n - 1 : at == 3 ? n : at == 4 ? 255 : 256;
    if (!c.mine()) return;
    std::vector<Pred> ch; for (int i = 0; i < n; i++) ch.push_back(atom((i == at) != (k == 0) ? 0 : 1));
    model::Trace t = base(); Query x; x.fv = {{0}, {1}}; t.points = {{stmt(1), var(0, 0, le(1, 4)), var(0, 1, le(1, 2))}};
    static DB *d = NULL; if (!d) { d = new DB; d->add(c, t); }
    x.hard = many(k ? OR : AND, ch); if (inv) x.hard = lnot(x.hard);
    c.describe(show(x)); c.state(mc::hash_str(c.desc));
    std::string m = check(c, *d, 0, x, true); if (!m.empty()) c.fail(m);
}
// deep nesting
SCENARIO(deep) {
    int n = c.choose(46), k = c.choose(4); if (n >= 40) { static const int BIG[] = {63, 64, 100, 128, 256, 500}; n = BIG[n - 40]; }
    if (!c.mine()) return;
    Pred p = k == 3 ? val(0) : atom(n & 1);
    for (int i = 0; i < n; i++) p = k == 0 ? lnot(p) : k == 1 ? many(AND, {p, atom(0)}) : k == 2 ? many(OR, {atom(1), p}) : op(i % 2 ? ADD : SUBTRACT, p, num(i));
    if (k == 3) p = op(LESS_THAN, p, num(1));
    model::Trace t = base(); Query x; x.fv = {{0}, {1}}; t.points = {{stmt(1), var(0, 0, le(1, 4)), var(0, 1, le(1, 2))}};
    x.hard = p; one(c, t, x);
}
// distinctness of every pair of variables, bound to every free variable
SCENARIO(distinctness) {
    static const std::vector<Entry> V = {var(0, 0, le(1, 4)), var(1, 0, le(1, 4)), var(0, 0, le(2, 4)), var(0, 9, le(1, 4)), var(0, 4, "ab"), var(0, 4, Bytes("a\0", 2)), var(0, 4, "abc"), var(0, 4, ""), var(0, 7, "ab"),
        var(0, 2, le(0x1000, 8)), var(0, 2, le(0x1004, 8)), var(0, 3, db(0.0)), var(0, 3, db(-0.0)), var(1, 4, "ab"), var(0, 1, le(1, 2))};
    int i = c.choose(V.size()), j = c.choose(V.size()), frees_ = c.choose(2);
    if (!c.mine()) return;
    model::Trace t = base(); Query x;
    t.points = {{stmt(1), V[i], V[j]}, {stmt(2), V[i], buf(0x1000, 8), V[j]}, {stmt(3), V[j]}};
    if (frees_) { x.fv = {{(uint32_t) V[i].b}, {(uint32_t) V[j].b}}; x.hard = distinct(0, 1); }
    else { x.fv = {{(uint32_t) V[i].b}, {0, 1, 2, 3, 4, 7, 9}, {(uint32_t) V[j].b}}; x.hard = distinct(2, 0); }
    one(c, t, x);
    x.hard = lnot(x.hard); one(c, t, x);
}
// which variable a reference names
SCENARIO(references) {
    int n = 1 + c.choose(7); if (n == 7) n = 300;
    int i = c.choose(n > 6 ? 8 : n), j = c.choose(n > 6 ? 8 : n), k = c.choose(3);
    static const int IX[] = {0, 1, 127, 128, 255, 256, 257, 299}; if (n > 6) { i = IX[i]; j = IX[j]; }
    if (!c.mine()) return;
    model::Trace t = base(); Point p = {stmt(1), buf(0x1000, 0x100)}; Query x;
    for (int m = 0; m < n; m++) { t.types.push_back(Type{0, (uint32_t) (k == 1 ? FP : FU), 8}); p.push_back(var(m % 3, t.types.size() - 1, le(0x1000 + m, 8))); x.fv.push_back({(uint32_t) t.types.size() - 1}); }
    t.points = {p};
    if (k == 0) x.hard = op(EQUAL, op(SUBTRACT, val(i), val(j)), sig(i - j));
    if (k == 1) x.hard = op(EQUAL, op(SUBTRACT, siz(i), siz(j)), sig(j - i));
    if (k == 2) x.hard = op(LESS_THAN, val(i), val(j));
    one(c, t, x);
}
