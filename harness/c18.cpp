// C18: equality, hashing and ordering agree with the content.
#define NO_PRODUCT
#include <bitset>
#include "query_suite.hpp"
using namespace q;

static const size_t MAXN = 1024;
// a pool: every object twice (separate storage), with its content as text
template <class T> struct Pool { std::vector<T> a, b; std::vector<std::string> key; void add(const T & x, const T & y, const std::string & k) { a.push_back(x); b.push_back(y); key.push_back(k); } };

template <class T> static void equality(mc::Ctx & c, const Pool<T> & p, const char *what) {
    size_t i = c.choose(p.a.size());
    if (!c.mine()) return;
    c.describe(strf("%s %zu: ", what, i) + p.key[i]); c.state(mc::hash_str(c.desc));
    for (size_t j = 0; j < p.a.size(); j++) {
        bool eq = p.key[i] == p.key[j];
        if ((p.a[i] == p.b[j]) != eq || (p.b[j] == p.a[i]) != eq) c.fail(strf("compares %s with ", eq ? "unequal" : "equal") + p.key[j]);
        if (eq && (hash_value(p.a[i]) != hash_value(p.b[j]) || std::hash<T>()(p.a[i]) != std::hash<T>()(p.b[j]))) c.fail("is equal to another object but has a different hash: " + p.key[j]);
        c.step();
    }
    c.check(p.a[i] == p.a[i], "is not equal to itself");
    T copy(p.a[i]);
    c.check(copy == p.a[i] && hash_value(copy) == hash_value(p.a[i]), "a copy is not equal or has another hash");
}
template <class T> static void order(mc::Ctx & c, const Pool<T> & p, const char *what) {
    size_t i = c.choose(p.a.size());
    if (!c.mine()) return;
    c.describe(strf("order of %s %zu: ", what, i) + p.key[i]); c.state(mc::hash_str(c.desc));
    static std::vector<std::bitset<MAXN> > lt;      // lt[i][j]: a_i < b_j
    static const void *of = NULL;
    size_t n = p.a.size();
    if (of != &p) {
        of = &p; lt.assign(n, std::bitset<MAXN>());
        for (size_t x = 0; x < n; x++) for (size_t y = 0; y < n; y++) lt[x][y] = p.a[x] < p.b[y];
    }
    c.check(!(p.a[i] < p.a[i]), "is less than itself");
    for (size_t j = 0; j < n; j++) {
        bool eq = p.key[i] == p.key[j], l = lt[i][j], g = lt[j][i];
        if (eq ? (l || g) : l == g) c.fail(strf("%s: < is %d and %d against ", eq ? "equal" : "different", l, g) + p.key[j]);
        c.check(l == (p.a[i] < p.a[j]), "the order depends on more than the content: " + p.key[j]);
        // i < j and j < k imply i < k
        if (l && (lt[j] & ~lt[i]).any()) for (size_t k = 0; k < n; k++) if (lt[j][k] && !lt[i][k]) c.fail("order is not transitive: less than " + p.key[j] + ", which is less than " + p.key[k]);
        c.step(n);
    }
}
static DVar dv(uint32_t n, uint32_t t, uint32_t f, uint32_t sz, uint64_t u, const Bytes & b, int has) {
    DVar v; v.name = n; v.type = t; v.format = f; v.size = sz; v.u = u; v.blob = b; v.has = has > 0; v.bsize = has > 1 ? (has == 2 ? 5 : has == 3 ? 0x100000005ull : ~0ull) : 0; return v;
}
static const std::vector<DVar> & dvars() {
    static std::vector<DVar> v;
    if (v.empty()) {
        struct { uint32_t f, s; uint64_t u; const char *b; } V[] = {
            {FU, 1, 0, ""}, {FU, 1, 1, ""}, {FU, 1, 255, ""}, {FU, 2, 1, ""}, {FU, 2, 0x101, ""}, {FU, 4, 1, ""}, {FU, 4, 0x10001, ""}, {FU, 8, 1, ""}, {FU, 8, 0x100000001ull, ""}, {FU, 8, 0x8000000000000000ull, ""}, {FU, 8, ~0ull, ""},
            {FS, 1, ~0ull, ""}, {FS, 1, 1, ""}, {FS, 2, ~0ull, ""}, {FS, 4, ~0ull, ""}, {FS, 8, ~0ull, ""}, {FS, 8, 1, ""}, {FF, 4, 0x3f800000, ""}, {FF, 8, 0x3f800000, ""}, {FF, 8, 0x3ff0000000000000ull, ""},
            {FP, 4, 1, ""}, {FP, 8, 1, ""}, {FP, 8, 0x3f800000, ""}};
        for (auto & x : V) for (uint32_t n = 0; n < 2; n++) for (uint32_t t = 0; t < 2; t++) for (int h : {0, 1, 2, 3, 4}) if (x.f == FP || h == 0 || (n == 0 && t == 0 && h == 2)) v.push_back(dv(n, t, x.f, x.s, x.u, "", h));
        for (auto & b : {Bytes(""), Bytes("a"), Bytes("b"), Bytes("ab"), Bytes("ac"), Bytes("abc"), Bytes("ab\0", 3), Bytes("\xff"), Bytes("\x80" "a"), Bytes("\0", 1), Bytes("\0\0", 2), Bytes(40, 'x'), Bytes(39, 'x') + "y", "y" + Bytes(39, 'x'), Bytes(41, 'x')})
            for (uint32_t n = 0; n < 2; n++) for (uint32_t t = 0; t < 2; t++) v.push_back(dv(n, t, FB, b.size(), 0, b, 0));
    }
    return v;
}
static std::string key(const DVar & v) { return show(v) + (v.format == FB ? "/" + hex(v.blob, 4096) : ""); }
static std::string key(const DPoint & p) { std::string s = strf("#%llu st%llx", (unsigned long long) p.counter, (unsigned long long) p.statement); for (auto & v : p.vars) s += " " + key(v); for (auto & z : p.sizes) s += strf(" b%llx,%llx", (unsigned long long) z.first, (unsigned long long) z.second); for (auto a : p.aux) s += strf(" a%llx", (unsigned long long) a); return s; }
static std::string key(const DTrace & t) { std::string s; for (auto & n : t.names) s += "'" + hex(n) + "' "; for (auto & y : t.types) s += strf("%u/%u/%u ", y.name, y.format, y.size); for (auto & p : t.points) s += "{" + key(p) + "}"; return s; }
static const Pool<TraceVarInfo> & pvars() { static Pool<TraceVarInfo> *p; if (!p) { p = new Pool<TraceVarInfo>; for (auto & v : dvars()) p->add(impl::make(v), impl::make(v), key(v)); } return *p; }
static const Pool<TraceBufferSize> & psizes() {
    static Pool<TraceBufferSize> *p;
    if (!p) { p = new Pool<TraceBufferSize>; std::vector<uint64_t> x = {0, 1, 2, 0xff, 0x100, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x100000001ull, 0x7fffffffffffffffull, 0x8000000000000000ull, ~0ull};
        for (auto a : x) for (auto s : x) p->add(TraceBufferSize(a, s), TraceBufferSize(a, s), strf("%llx/%llx", (unsigned long long) a, (unsigned long long) s)); }
    return *p;
}
static const Pool<TypeDescription> & ptypes() {
    static Pool<TypeDescription> *p;
    if (!p) { p = new Pool<TypeDescription>; std::vector<uint32_t> x = {0, 1, 2, 4, 8, 0x100, 0x10000, 0x80000000u, 0xffffffffu};
        for (auto a : x) for (uint32_t f = 0; f < 5; f++) for (auto s : x) p->add(TypeDescription(a, (type_format) f, s), TypeDescription(a, (type_format) f, s), strf("%x/%u/%x", a, f, s)); }
    return *p;
}
// points: each part on its own and in combination
static const std::vector<DPoint> & dpoints() {
    static std::vector<DPoint> v;
    if (v.empty()) {
        std::vector<DVar> V = {dv(0, 0, FU, 4, 1, "", 0), dv(0, 0, FU, 4, 2, "", 0), dv(1, 0, FU, 4, 1, "", 0), dv(0, 1, FB, 2, 0, "ab", 0), dv(0, 1, FB, 2, 0, "ac", 0), dv(0, 1, FB, 3, 0, "abc", 0), dv(0, 2, FP, 8, 1, "", 2), dv(0, 2, FP, 8, 1, "", 0)};
        std::vector<std::vector<DVar> > vs = {{}}; for (auto & a : V) vs.push_back({a}); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) vs.push_back({V[i], V[j]}); vs.push_back({V[0], V[0], V[0]}); vs.push_back({V[0], V[1], V[0]});
        std::vector<std::vector<std::pair<uint64_t, uint64_t> > > zs = {{}, {{1, 2}}, {{2, 1}}, {{1, 3}}, {{1, 2}, {1, 2}}, {{1, 2}, {2, 1}}, {{2, 1}, {1, 2}}};
        std::vector<std::vector<uint64_t> > as = {{}, {0}, {1}, {2}, {1, 2}, {2, 1}, {0, 0}, {1, 1, 2}};
        auto mk = [](uint64_t ct, uint64_t st, std::vector<DVar> a, std::vector<std::pair<uint64_t, uint64_t> > z, std::vector<uint64_t> x) { DPoint p; p.counter = ct; p.statement = st; p.vars = a; p.sizes = z; p.aux = x; return p; };
        for (auto & a : vs) for (auto & z : zs) v.push_back(mk(0, 1, a, z, {}));
        for (auto & a : vs) for (auto & x : as) if (!x.empty()) v.push_back(mk(0, 1, a, {}, x));
        for (auto & z : zs) for (auto & x : as) if (!z.empty() && !x.empty()) v.push_back(mk(0, 1, {}, z, x));
        for (uint64_t ct : {0ull, 1ull, 0x100000000ull}) for (uint64_t st : {0ull, 1ull, 2ull, 0x100000001ull, ~0ull}) for (int k = 0; k < 4; k++) if (ct || st != 1) v.push_back(mk(ct, st, vs[k], zs[k % 2], as[k % 3]));
    }
    return v;
}
static const Pool<TracePoint> & ppoints() { static Pool<TracePoint> *p; if (!p) { p = new Pool<TracePoint>; for (auto & v : dpoints()) p->add(impl::make(v), impl::make(v), key(v)); } return *p; }
static const Pool<TracePointData> & pdata() {
    static Pool<TracePointData> *p;
    if (!p) { p = new Pool<TracePointData>; for (auto & v : dpoints()) { DPoint w = v; w.counter = w.statement = 0; TracePoint x = impl::make(w), y = impl::make(w); p->add(x.getData().get(), TracePointData(y.getBufferSizes(), y.getVars(), y.getAux()), key(w)); } }
    return *p;
}
static const std::vector<DTrace> & dtraces() {
    static std::vector<DTrace> v;
    if (v.empty()) {
        std::vector<std::vector<std::string> > ns = {{"a", "b", "c"}, {"a", "b"}, {"b", "a"}, {"ab"}, {"a", "b", ""}, {}, {"a", "b", "c", "c"}};
        std::vector<std::vector<model::Type> > ys = {{{0, FU, 4}, {0, FB, 0}, {0, FP, 8}}, {{0, FU, 4}}, {{0, FS, 4}}, {{1, FU, 4}}, {{0, FU, 8}}, {}, {{0, FU, 4}, {0, FU, 4}}};
        std::vector<std::vector<DPoint> > ps = {{}}; const std::vector<DPoint> & D = dpoints();
        for (size_t i = 0; i < D.size(); i += 13) { ps.push_back({D[i]}); ps.push_back({D[i], D[0]}); ps.push_back({D[0], D[i]}); }
        ps.push_back({D[1], D[1], D[1]});
        for (auto & p : ps) { DTrace t; t.names = ns[0]; t.types = ys[0]; t.points = p; v.push_back(t); }
        for (size_t i = 0; i < ns.size(); i++) for (size_t j = 0; j < ys.size(); j++) for (int k = 0; k < 2; k++) { if (!i && !j) continue; DTrace t; t.names = ns[i]; t.types = ys[j]; t.points = ps[k]; v.push_back(t); }
    }
    return v;
}
static const Pool< ::Trace> & ptraces() { static Pool< ::Trace> *p; if (!p) { p = new Pool< ::Trace>; for (auto & v : dtraces()) p->add(impl::make(v), impl::make(v), key(v)); } return *p; }
static const Pool<TraceDB> & pdbs() {
    static Pool<TraceDB> *p;
    if (!p) {
        p = new Pool<TraceDB>; const std::vector<DTrace> & T = dtraces();
        auto add = [&](std::vector<size_t> ix) { TraceDB x, y; std::string k; for (size_t i : ix) { x.addTrace(impl::make(T[i])); y.addTrace(impl::make(T[i])); k += "<" + key(T[i]) + ">"; } p->add(x, y, k); };
        add({}); for (size_t i = 0; i < T.size(); i += 4) { add({i}); add({i, 0}); add({0, i}); } add({1, 1, 1}); add({1, 1}); add({1, 2, 1});
    }
    return *p;
}
static const Pool<Predicate> & ppreds() {
    static Pool<Predicate> *p;
    if (!p) {
        p = new Pool<Predicate>;
        std::vector<Pred> v = {nul(), ref(0), ref(1), num(0), num(1), num(2), sig(0), sig(1), sig(-1), flo(1.0), flo(1.5), flo(2.0), num(0x3ff0000000000000ull), val(0), val(1), siz(0), siz(1), num(~0ull), num(0x100000001ull), ref(0x100000000ull)};
        for (int k : {GREATER_THAN, GREATER_THAN_OR_EQUAL, LESS_THAN, LESS_THAN_OR_EQUAL, EQUAL, ADD, SUBTRACT, MULTIPLY, DIVIDE}) { v.push_back(op(k, val(0), num(1))); v.push_back(op(k, num(1), val(0))); v.push_back(op(k, val(0), val(1))); v.push_back(op(k, val(0), sig(1))); v.push_back(op(k, val(0), num(0))); }
        Pred a = op(EQUAL, val(0), num(1)), b = op(LESS_THAN, val(1), num(1));
        for (int k : {AND, OR}) { v.push_back(many(k, {})); v.push_back(many(k, {a})); v.push_back(many(k, {b})); v.push_back(many(k, {a, b})); v.push_back(many(k, {b, a})); v.push_back(many(k, {a, a})); v.push_back(many(k, {a, b, a})); v.push_back(many(k, {a, a, b})); v.push_back(many(k, {many(k, {a}), b})); v.push_back(many(k, {many(k, {a, b})})); v.push_back(many(k, {many(k, {}), a})); v.push_back(many(k, {a, many(k, {})})); }
        v.push_back(lnot(a)); v.push_back(lnot(b)); v.push_back(lnot(lnot(a))); v.push_back(distinct(0, 1)); v.push_back(distinct(1, 0)); v.push_back(distinct(0, 0));
        v.push_back(op(SUBTRACT, op(SUBTRACT, val(0), num(1)), num(2))); v.push_back(op(SUBTRACT, val(0), op(SUBTRACT, num(1), num(2))));
        for (auto & x : v) p->add(cxx(x), cxx(x), show(x));
    }
    return *p;
}
static const Pool<FreeVariable> & pfree() {
    static Pool<FreeVariable> *p;
    if (!p) {
        p = new Pool<FreeVariable>; std::vector<std::vector<uint32_t> > v = {{}};
        std::vector<uint32_t> d = {0, 1, 2, 0x100, 0xffffffffu};
        for (auto a : d) { v.push_back({a}); for (auto b : d) { v.push_back({a, b}); for (auto e : d) v.push_back({a, b, e}); } }
        for (auto & x : v) { std::string k = "{"; for (auto y : x) k += strf("%u ", y); p->add(FreeVariable(x), FreeVariable(std::vector<uint32_t>(x)), k); }
    }
    return *p;
}
SCENARIO(buffer_sizes) { equality(c, psizes(), "buffer size"); }
SCENARIO(types) { equality(c, ptypes(), "type"); }
SCENARIO(variables) { equality(c, pvars(), "variable"); }
SCENARIO(point_data) { equality(c, pdata(), "point data"); }
SCENARIO(points) { equality(c, ppoints(), "point"); }
SCENARIO(traces) { equality(c, ptraces(), "trace"); }
SCENARIO(databases) { equality(c, pdbs(), "database"); }
SCENARIO(predicates) { equality(c, ppreds(), "predicate"); }
SCENARIO(free_variables) { equality(c, pfree(), "free variable"); }
SCENARIO(order_buffer_sizes) { order(c, psizes(), "buffer size"); }
SCENARIO(order_types) { order(c, ptypes(), "type"); }
SCENARIO(order_variables) { order(c, pvars(), "variable"); }
SCENARIO(order_point_data) { order(c, pdata(), "point data"); }
SCENARIO(order_points) { order(c, ppoints(), "point"); }
// every value of two bytes, in every scalar format, against its neighbours in every bit
SCENARIO(single_bits) {
    const model::Type & ty = c.pick(gen::all_types()); std::vector<Bytes> pats = gen::patterns(ty.size ? ty.size : 5); Bytes a = c.pick(pats);
    if (!c.mine()) return;
    c.describe(strf("format %u size %u value ", ty.format, ty.size) + hex(a)); c.state(mc::hash_str(c.desc));
    auto mk = [&](const Bytes & b) { DVar v = dv(0, 0, ty.format, b.size(), 0, b, 0); if (ty.format != FB) { uint64_t u = 0; memcpy(&u, b.data(), b.size()); if (ty.format == FS && b.size() < 8 && (b[b.size() - 1] & 0x80)) u |= ~0ull << (8 * b.size()); v.u = u; v.blob = ""; } return v; };
    TraceVarInfo x = impl::make(mk(a)), x2 = impl::make(mk(a));
    c.check(x == x2 && !(x < x2) && !(x2 < x) && hash_value(x) == hash_value(x2), "not equal to itself");
    for (size_t i = 0; i < 8 * a.size(); i++) { Bytes b = a; b[i / 8] ^= 1 << (i % 8); TraceVarInfo y = impl::make(mk(b)); c.check(!(x == y) && !(y == x), strf("equal although bit %zu differs", i)); c.check((x < y) != (y < x), strf("order does not separate values that differ in bit %zu", i)); c.step(); }
}
// being used does not change what an object is equal to
SCENARIO(after_use) {
    size_t i = c.choose(dtraces().size());
    if (!c.mine()) return;
    const DTrace & d = dtraces()[i]; c.describe(key(d)); c.state(mc::hash_str(c.desc));
    ::Trace a = impl::make(d), b = impl::make(d);
    size_t h = hash_value(a);
    a.getPoints(0, 0); a.getPoints(1, 1); a.getPoints(~0ull, 1); FreeVariables fv; a.query(fv, Predicate());
    c.check(a == b && b == a && hash_value(a) == h && hash_value(b) == h, "a queried trace is no longer equal, or has another hash");
    c.step();
}
