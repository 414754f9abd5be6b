// C14: serialized databases restore completely.
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#define NO_PRODUCT
#include "query_suite.hpp"
using namespace q;

static std::string text_of(const void *db) { char *s = serialize_trace_db(db); std::string r = s; free(s); return r; }
// DB holds exactly WANT, in the C++ and the C view
static std::string holds_exactly(const void *db, const std::vector<DTrace> & want) {
    if (n_traces(db) != want.size()) return strf("expected %zu traces, got %u", want.size(), n_traces(db));
    for (size_t i = 0; i < want.size(); i++) {
        std::string r = diff(want[i], impl::dtrace(*(const ::Trace *) get_trace(db, i)));
        if (r.empty()) r = impl::cdiff(want[i], get_trace(db, i));
        if (!r.empty()) return strf("trace %zu: ", i) + r;
    }
    return "";
}
static void put_file(const std::string & f, const std::string & s) { impl::write_file(f, s); }
static std::string get_file(const std::string & f) { std::ifstream i(f.c_str(), std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }

// a few queries whose answer depends on everything that was restored
static std::vector<Query> probes() {
    std::vector<Query> v; Query x;
    v.push_back(x);
    x.fv = {{0, 1, 2, 3, 4, 5, 6, 7, 8, 9}}; v.push_back(x);
    x.hard = op(GREATER_THAN_OR_EQUAL, siz(0), num(0)); v.push_back(x);
    x.hard = op(LESS_THAN, val(0), num(0x1005)); x.keep = false; v.push_back(x);
    x.hard = nul(); x.keep = true; x.mask = 1; x.st = 1; v.push_back(x);
    return v;
}
static std::string queries_agree(const void *db, const std::vector<DTrace> & want) {
    for (size_t i = 0; i < want.size(); i++) {
        if (want[i].points.size() > 300) continue;
        for (auto & x : probes()) {
            Answer a = answer(want[i], x); if (a.open) continue;
            std::string r = agree(a, x, ask(db, i, x));
            if (!r.empty()) return strf("trace %zu, query ", i) + show(x) + ": " + r;
        }
    }
    return "";
}
static void build(mc::Ctx & c, void *db, const std::vector<model::Trace> & ts, std::vector<DTrace> & want, int how) {
    for (auto & t : ts) {
        Bytes b = encode(t); DTrace d;
        c.check(decode(b, 0, d) == OK, "generator: trace is not well formed");
        if (how == 0) ((TraceDB *) db)->addTrace(impl::make(d));
        else { std::string f = c.scratch + "/s.bin"; impl::write_file(f, b); c.check(add_trace(db, f.c_str(), 5, 0), "a well-formed trace is rejected"); }
        want.push_back(d);
    }
}
static void same_process(mc::Ctx & c, const std::vector<model::Trace> & ts, int how, bool used, std::string *text = NULL) {
    void *db = create_db(); std::vector<DTrace> want; std::string r;
    build(c, db, ts, want, how);
    if (used) { r = queries_agree(db, want); if (!r.empty()) c.fail("original: " + r); }
    std::string s = text_of(db);
    r = holds_exactly(db, want); if (!r.empty()) c.fail("serializing changed the original: " + r);
    c.check(text_of(db) == s, "serializing twice gives another text");
    void *e = deserialize_trace_db(s.c_str());
    r = holds_exactly(e, want); if (!r.empty()) c.fail("restored: " + r);
    const TraceDB & D = *(TraceDB *) db, & E = *(TraceDB *) e;
    c.check(D == E && E == D, "the restored database is not equal to the original");
    c.check(hash_value(D) == hash_value(E), "the restored database has another hash");
    c.check(text_of(e) == s, "serializing the restored database gives another text");
    r = queries_agree(e, want); if (!r.empty()) c.fail("restored: " + r);
    c.check(text_of(e) == s, "querying the restored database changed its text");
    free_db(db);                // the copy does not depend on the original
    r = holds_exactly(e, want); if (!r.empty()) c.fail("restored, original freed: " + r);
    free_db(e);
    if (text) *text = s;
    c.step(ts.size() + 6);
}
static void hash_case(mc::Ctx & c, const std::vector<model::Trace> & ts, int how, const char *x = "") {
    std::string s = strf("how %d%s:", how, x), h; for (auto & t : ts) { s += " " + show(t) + ";"; h += encode(t); h += strf("|%d", how); }
    c.describe(s); c.state(mc::hash_str(h));
}
// the text is made in one process and restored in another that knows nothing
static void other_process(mc::Ctx & c, const std::vector<model::Trace> & ts, int how) {
    std::string f = c.scratch + "/text";
    isolated(c, [&]() { std::string s; same_process(c, ts, how, true, &s); put_file(f, s); });
    isolated(c, [&]() {
        std::string s = get_file(f), r; void *e = deserialize_trace_db(s.c_str()); std::vector<DTrace> want;
        for (auto & t : ts) { DTrace d; decode(encode(t), 0, d); want.push_back(d); }
        r = holds_exactly(e, want); if (!r.empty()) c.fail("restored in another process: " + r);
        c.check(text_of(e) == s, "another process serializes the restored database differently");
        r = queries_agree(e, want); if (!r.empty()) c.fail("restored in another process: " + r);
        // and it equals one built here from scratch
        void *db = create_db(); std::vector<DTrace> w2; build(c, db, ts, w2, how);
        c.check(*(TraceDB *) db == *(TraceDB *) e, "restored in another process: not equal to the same database built there");
        c.check(hash_value(*(TraceDB *) db) == hash_value(*(TraceDB *) e), "restored in another process: another hash");
        c.check(text_of(db) == s, "the same database serializes differently in another process");
        free_db(db); free_db(e);
    });
    c.step(ts.size() + 10);
}
static model::Trace base() {
    model::Trace t;
    t.names = {"int", "p", "x", "", "blob"};
    t.types = {{0, FU, 1}, {1, FS, 2}, {0, FS, 4}, {1, FP, 8}, {4, FB, 0}, {2, FB, 3}, {3, FF, 4}, {3, FF, 8}, {2, FU, 8}, {0, FP, 4}};
    return t;
}
static const std::vector<Entry> & vars() {
    static const std::vector<Entry> a = {
        var(0, 1, le(0xfffe, 2)), var(2, 3, le(0x1004, 8)), var(3, 4, Bytes("a\0b", 3)), var(4, 5, Bytes("\0\xff\x80", 3)),
        var(1, 0, le(0x80, 1)), var(1, 7, le(0x4004000000000000ull, 8)), var(0, 4, ""), var(0, 9, le(0x1008, 4)),
        var(2, 6, le(0x40200000, 4)), var(2, 8, le(0xfedcba9876543210ull, 8)), var(1, 2, le(0x80000000, 4))};
    return a;
}
static const std::vector<Entry> & bufs() {
    static const std::vector<Entry> a = {buf(0x1000, 16), buf(0x1000, 0), buf(0xffffffffffff0000ull, 0x10)};
    return a;
}
static Point point(mc::Ctx & c, int mb, int mv, int ma) {
    Point p; p.push_back(stmt(c.flip() ? 0xfedcba9876543211ull : 0));
    for (int n = c.choose(mb + 1); n > 0; n--) p.push_back(c.pick(bufs()));
    for (int n = c.choose(mv + 1); n > 0; n--) p.push_back(c.pick(vars()));
    for (int n = c.choose(ma + 1), i = 0; i < n; i++) p.push_back(aux(i ? 0 : 0x8877665544332211ull));
    return p;
}
// every sequence of traces: equal and different points, in and across traces
static const std::vector<model::Trace> & pool() {
    static std::vector<model::Trace> v;
    if (v.empty()) {
        model::Trace t = base(); v.push_back(t);                                        // no points
        v.push_back(model::Trace());                                                    // nothing at all
        t.points = {{stmt(1), buf(0x1000, 16), var(2, 3, le(0x1004, 8)), aux(3)}}; v.push_back(t);
        t.points = {{stmt(1), var(2, 3, le(0x1004, 8)), aux(3)}, {stmt(1), var(2, 3, le(0x1004, 8)), aux(3)}}; v.push_back(t);  // same variable, no size
        t.points = {{stmt(5), var(3, 4, "blob"), var(4, 4, "blob")}, {stmt(5), var(3, 4, "blob")}, {}}; v.push_back(t);
        t.names = {"other", "names"}; t.types = {{1, FS, 4}, {0, FU, 4}}; t.points = {{stmt(1), var(0, 0, le(-1, 4)), var(0, 1, le(-1, 4))}, {}, {stmt(2), aux(3), aux(3)}}; v.push_back(t);
    }
    return v;
}
SCENARIO(fresh_process) {       // first, while this process is as new as it gets
    int n = c.choose(c.thorough ? 4 : 4); std::vector<model::Trace> ts;
    for (int i = 0; i < n; i++) ts.push_back(c.pick(pool()));
    int how = c.choose(2);
    if (!c.mine()) return;
    hash_case(c, ts, how, " other process"); other_process(c, ts, how);
}
SCENARIO(fresh_points) {
    model::Trace t = base(); t.points.push_back(point(c, 1, 2, 1));
    if (!c.mine()) return;
    hash_case(c, {t}, 0, " other process"); other_process(c, {t}, 0);
}
SCENARIO(one_point) {
    model::Trace t = base(); t.points.push_back(point(c, 2, 2, 2));
    if (!c.mine()) return;
    hash_case(c, {t}, 0); same_process(c, {t}, 0, false);
}
SCENARIO(two_points) {
    model::Trace t = base(); for (int i = 0; i < 2; i++) t.points.push_back(point(c, 1, 1, 1));
    if (!c.mine()) return;
    hash_case(c, {t}, 1); same_process(c, {t}, 1, true);
}
SCENARIO(databases) {
    int n = c.choose(c.thorough ? 6 : 5); std::vector<model::Trace> ts;
    for (int i = 0; i < n; i++) ts.push_back(c.pick(pool()));
    int how = c.choose(2), used = c.choose(2);
    if (!c.mine()) return;
    hash_case(c, ts, how); same_process(c, ts, how, used);
}
SCENARIO(values) {
    const Type & ty = c.pick(gen::all_types());
    int n = ty.format == FB && ty.size == 0 ? 5 : ty.size;
    std::vector<Bytes> pats = gen::patterns(n); Bytes v = c.pick(pats);
    if (!c.mine()) return;
    model::Trace t; t.names = {"a", "b"}; t.types = {ty, {1, FU, 1}};
    Bytes w = v; w[0] ^= 1;
    t.points = {{stmt(1), var(1, 0, v), var(0, 1, "\x7f"), var(1, 0, w), aux(9)}, {stmt(2), var(1, 0, v)}};
    hash_case(c, {t}, 0); same_process(c, {t}, 0, false);
}
SCENARIO(values_exhaustive) {
    int f = c.choose(3), blk = c.choose(257);
    if (!c.mine()) return;
    model::Trace t; t.names = {"a"}; uint32_t fmt = f == 0 ? FU : f == 1 ? FS : FB;
    t.types = {{0, fmt, blk == 256 ? 1u : 2u}};
    for (int i = 0; i < 256; i++) t.points.push_back({stmt(i), var(0, 0, blk == 256 ? le(i, 1) : le(blk * 256 + i, 2))});
    hash_case(c, {t}, 0); same_process(c, {t}, 0, false);
}
SCENARIO(ids) {
    std::vector<Bytes> pats = gen::patterns(8); int k = c.choose(3); Bytes v = c.pick(pats);
    if (!c.mine()) return;
    uint64_t x = 0; memcpy(&x, v.data(), 8);
    model::Trace t; t.names = {"a"}; t.types = {{0, FP, 8}};
    if (k == 0) t.points = {{stmt(x)}, {stmt(~x)}};
    if (k == 1) t.points = {{stmt(1), aux(x), aux(~x), aux(x)}};
    if (k == 2) t.points = {{stmt(1), buf(x / 2, x / 4 + 1), var(0, 0, le(x / 2 + x / 8, 8))}, {stmt(2), buf(x / 2, 0)}};
    hash_case(c, {t}, 0); same_process(c, {t}, 0, false);
}
SCENARIO(names) {
    static const std::vector<std::string> N = {"", "a", "bc", "\xff\x01", "a b\n", " lead", "12 34", "\n\n", "22 serialization::archive"};
    model::Trace t; int n = c.choose(4);
    for (int i = 0; i < n; i++) t.names.push_back(c.pick(N));
    int ty = n ? c.choose(n + 1) : 0;
    if (!c.mine()) return;
    if (ty) { t.types.push_back(Type{(uint32_t) ty - 1, FS, 4}); t.points.push_back({stmt(7), var(ty - 1, 0, le(-5, 4))}); }
    t.points.push_back({stmt(8)});
    hash_case(c, {t, t}, 0); same_process(c, {t, t}, 0, false);
}
SCENARIO(name_bytes) {
    int b = 1 + c.choose(255), k = c.choose(3);
    if (!c.mine()) return;
    model::Trace t; std::string s(1, (char) b); t.names = {k == 0 ? s : k == 1 ? "x" + s + "y" : s + s, "z"};
    hash_case(c, {t}, 1); same_process(c, {t}, 1, false);
}
SCENARIO(counts) {
    int kind = c.choose(9);
    std::vector<uint64_t> ns = gen::counts(40, c.thorough ? 131072 : kind == 8 ? 4096 : 65536);
    uint64_t n = c.pick(ns);
    if (!c.mine()) return;
    model::Trace t; t.names = {"x", "y"}; t.types = {{0, FU, 4}, {1, FB, 0}, {1, FP, 8}};
    Point p; p.push_back(stmt(42)); std::vector<model::Trace> ts;
    switch (kind) {
    case 0: t.points.assign(n, p); for (uint64_t i = 0; i < n; i++) { t.points[i][0].a = i * 3; t.points[i].push_back(var(i & 1, 0, le(i, 4))); } break;
    case 1: for (uint64_t i = 0; i < n; i++) p.push_back(var(1, 0, le(i, 4))); t.points = {p, p}; break;
    case 2: for (uint64_t i = 0; i < n; i++) p.push_back(aux(~i)); t.points = {p, {stmt(3), aux(1)}}; break;
    case 3: for (uint64_t i = 0; i < n; i++) p.push_back(buf(i * 64, i % 3 ? 32 : 0)); p.push_back(var(0, 2, le(64 * (n / 2) + 3, 8))); t.points = {p, {stmt(0), var(0, 2, le(65, 8))}}; break;
    case 4: for (uint64_t i = 2; i < n; i++) t.names.push_back(gen::nm(i)); p.push_back(var(t.names.size() - 1, 0, le(1, 4))); t.points = {p}; break;
    case 5: for (uint64_t i = 3; i < n; i++) t.types.push_back(Type{(uint32_t) i & 1, (uint32_t) (i % 2 ? FU : FS), (uint32_t) (1 << (i & 3))}); t.points = {p}; break;
    case 6: { Bytes b; for (uint64_t i = 0; i < n; i++) b += (char) (i * 7 + i / 256); p.push_back(var(0, 1, b)); p.push_back(aux(5)); t.points = {p, {stmt(1), var(1, 1, b)}}; break; }
    case 7: t.names.push_back(std::string(n, 'q')); t.points = {p}; break;
    case 8: for (uint64_t i = 0; i < n; i++) { t.points = {{stmt(i), var(0, 0, le(i / 2, 4))}}; ts.push_back(t); } break;
    }
    if (kind != 8) ts.push_back(t);
    c.describe(strf("counts kind %d n %llu", kind, (unsigned long long) n)); c.state(mc::hash_str(c.desc));
    same_process(c, ts, 0, false);
}
// loading the text into objects that already hold something
SCENARIO(load_over) {
    int a = c.choose(pool().size()), b = c.choose(pool().size()), x = c.choose(3), used = c.choose(2);
    if (!c.mine()) return;
    std::vector<model::Trace> ts; ts.push_back(pool()[a]); if (x == 1) ts.push_back(pool()[(a + 2) % pool().size()]);
    hash_case(c, {pool()[a], pool()[b]}, 10 + x + 4 * used, " load over");
    if (x < 2) {
        TraceDB src, dst; std::vector<DTrace> want, old;
        build(c, &src, ts, want, 0); build(c, &dst, {pool()[b], pool()[a]}, old, 0);
        if (used) { std::string r = queries_agree(&dst, old); if (!r.empty()) c.fail(r); }
        std::stringstream ss; { boost::archive::text_oarchive oa(ss); const TraceDB & s = src; oa << s; }
        { boost::archive::text_iarchive ia(ss); ia >> dst; }
        std::string r = holds_exactly(&dst, want); if (r.empty()) r = queries_agree(&dst, want);
        if (!r.empty()) c.fail("loaded over another database: " + r);
        c.check(dst == src, "loaded over another database: not equal");
    } else {
        DTrace da, dbb; decode(encode(pool()[a]), 0, da); decode(encode(pool()[b]), 0, dbb);
        ::Trace src = impl::make(da), dst = impl::make(dbb);
        if (used) { dst.getPoints(0, 0); dst.getPoints(1, 1); }
        std::stringstream ss; { boost::archive::text_oarchive oa(ss); const ::Trace & s = src; oa << s; }
        { boost::archive::text_iarchive ia(ss); ia >> dst; }
        std::string r = diff(da, impl::dtrace(dst)); if (!r.empty()) c.fail("loaded over another trace: " + r);
        c.check(dst == src && hash_value(dst) == hash_value(src), "loaded over another trace: not equal");
        for (uint64_t m : {0ull, 1ull}) { size_t k = 0; for (auto & p : da.points) k += (p.statement & m) == m; c.check(dst.getPoints(m, m).size() == k, "loaded over another trace: filtered points are stale"); }
    }
    c.step(4);
}
// objects put together directly, so that every field can take every boundary
// value: counters, indices, sizes and buffer sizes
SCENARIO(fields) {
    static const std::vector<uint64_t> X = {0, 1, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffffull, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x100000001ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0xfffffffffffffffeull, ~0ull};
    int f = c.choose(11); uint64_t x = c.pick(X), y = c.pick(X); int dup = c.choose(2);
    if (!c.mine()) return;
    DTrace d; d.names = {"a", "b"}; d.types = {Type{0, FU, 8}, Type{1, FP, 8}, Type{1, FB, 0}};
    auto dv = [](uint32_t n, uint32_t t, uint32_t fm, uint32_t sz, uint64_t u, uint64_t b, int has) { DVar v; v.name = n; v.type = t; v.format = fm; v.size = sz; v.u = u; v.bsize = b; v.has = has; return v; };
    DPoint p; p.counter = 3; p.statement = 1; p.vars = {dv(0, 0, FU, 8, 7, 0, 0)};
    switch (f) {
    case 0: p.counter = x; p.statement = y; break;
    case 1: p.statement = x; p.aux = {y, x, y}; break;
    case 2: p.sizes = {{x, y}}; break;
    case 3: p.sizes = {{1, 2}, {x, y}, {y, x}}; break;
    case 4: p.vars.push_back(dv(x, 0, FU, 8, y, 0, 0)); break;
    case 5: p.vars.push_back(dv(0, 0, FS, 8, x, 0, 0)); p.vars.push_back(dv(1, 0, FF, 8, y, 0, 0)); break;
    case 6: p.vars.push_back(dv(0, 1, FP, 8, x, y, 1)); break;
    case 7: p.vars.push_back(dv(0, 1, FP, 8, x, 0, 0)); p.vars.push_back(dv(0, 1, FP, 8, y, 0, 1)); break;
    case 8: d.types.push_back(Type{(uint32_t) x, FU, (uint32_t) y}); break;
    case 9: p.vars.push_back(dv(0, 0, FU, 4, (uint32_t) x, 0, 0)); p.vars.push_back(dv(0, 0, FS, 4, (uint64_t) (int64_t) (int32_t) y, 0, 0)); break;
    case 10: p.vars.push_back(dv(0, 1, FP, 4, (uint32_t) x, y, 1)); break;
    }
    d.points = {p}; if (dup) { d.points.push_back(p); d.points[1].counter = p.counter + 1; }
    c.describe(strf("field %d: %llx %llx%s", f, (unsigned long long) x, (unsigned long long) y, dup ? " twice" : "")); c.state(mc::hash_str(c.desc));
    TraceDB src; src.addTrace(impl::make(d)); src.addTrace(impl::make(d));
    std::string s = text_of(&src); TraceDB *e = (TraceDB *) deserialize_trace_db(s.c_str());
    c.check(e->getTraces().size() == 2, "restored: another number of traces");
    for (int i = 0; i < 2; i++) { std::string r = diff(d, impl::dtrace(e->getTraces()[i])); if (!r.empty()) c.fail("restored: " + r); }
    c.check(*e == src && hash_value(*e) == hash_value(src), "restored: not equal");
    c.check(text_of(e) == s, "serializing the restored database gives another text");
    delete e; c.step(3);
}
