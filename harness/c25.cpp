// C25: the Lisp interface of the binary database.
#include "lispdb.hpp"
using namespace ldb;

// types with names of their own: 0 int u4, 1 short s2, 2 ptr, 3 double, 4 blob, 5 float, 6 ulong u8, 7 blob2, 8 long s8, 9 INT u1
static model::Trace tb() {
    model::Trace t; t.names = {"a", "b", "c", "int", "short", "ptr", "double", "blob", "float", "ulong", "blob2", "long", "INT", "A", ""};
    t.types = {{3, FU, 4}, {4, FS, 2}, {5, FP, 8}, {6, FF, 8}, {7, FB, 0}, {8, FF, 4}, {9, FU, 8}, {10, FB, 2}, {11, FS, 8}, {12, FU, 1}};
    return t;
}
static const std::vector<model::Trace> & lt() {
    static std::vector<model::Trace> v;
    if (v.empty()) {
        for (auto & q0 : q::traces()) { model::Trace t = tb(); t.points = q0.points; v.push_back(t); }     // the suite, with type names of their own
        model::Trace t = tb();
        // statements of several files, and of none
        t.points.clear();
        for (uint64_t s : std::vector<uint64_t>{1ull, sid(0, 1), sid(3, 1), sid(3, 2), sid(0, 2), 3ull << 40 | 1, sid(5, 1), sid(3, 1), 2ull, sid((1 << 23) - 1, (1ull << 40) - 1), sid(0, 0), 0ull, (1ull << 63) - 1})
            t.points.push_back({stmt(s), var(0, 0, le(s & 7, 4)), var(1, 0, le(2, 4)), aux(s)});
        v.push_back(t);
        // names and types that differ only in case; an empty name
        t.points = {{stmt(1), var(0, 0, le(1, 4)), var(13, 0, le(2, 4)), var(0, 9, le(3, 1)), var(14, 0, le(4, 4)), aux(7)}, {stmt(1), var(13, 0, le(1, 4)), var(0, 0, le(9, 4))}};
        v.push_back(t);
        // wide values
        t.points = {{stmt(1), var(0, 6, le(~0ull, 8)), var(1, 8, le(1ull << 63, 8)), var(2, 3, q::db(-0.0)), var(0, 5, q::fl(1e30f)), var(1, 2, le(~1ull, 8)), var(2, 6, le(1ull << 63, 8)), var(0, 1, le(0x8000, 2)), aux(~0ull), aux(0)},
                    {stmt(2), var(0, 4, "some text"), var(1, 4, ""), var(2, 7, "ab"), buf(0x1000, 0x100), var(0, 2, le(0x1000, 8)), var(1, 2, le(0x1100, 8)), var(2, 2, le(0x1101, 8)), var(0, 3, q::db(0.1))}};
        v.push_back(t);
        // the same statement and names with other values, the first one outside of what filters and predicates let through
        t.points = {{stmt(1), var(0, 0, le(9, 4)), var(1, 1, le(0xfffe, 2))}, {stmt(sid(3, 1)), var(0, 0, le(8, 4)), var(1, 0, le(7, 4))}, {stmt(1), var(0, 0, le(2, 4)), var(1, 1, le(3, 2))}, {stmt(sid(3, 1)), var(0, 0, le(1, 4)), var(1, 0, le(1, 4)), aux(4)}, {stmt(1), var(0, 0, le(1, 4)), var(1, 1, le(3, 2))}, {stmt(sid(0, 1)), var(1, 0, le(8, 4))}, {stmt(sid(0, 1)), var(1, 0, le(0, 4)), var(0, 0, le(9, 4))}};
        v.push_back(t);
    }
    return v;
}
static DTrace dec(const model::Trace & t, uint64_t max = 0) { DTrace d; if (decode(encode(t), max, d) != OK) abort(); return d; }
static std::string put_file(mc::Ctx & c, const model::Trace & t, int k = 0) { std::string f = c.scratch + mc::strf("/l%d.bin", k); impl::write_file(f, encode(t)); return f; }
static void add(mc::Ctx & c, V db, const model::Trace & t, I m) { V r = call("add-trace", {db, cl::str(put_file(c, t)), cl::num(5), meta(m)}); c.check(cl::yes(r), "add-trace of a good trace returns false"); }
// everything that can be seen of trace I
static void whole(mc::Ctx & c, V db, I i, const DTrace & d, I m, const char *when = "") {
    V n = cl::num(i); std::string w = mc::strf("trace %d%s: ", (int) i, when);
    V s = call("trace-size", {db, n}); c.check(cl::in(s) == (I) d.points.size(), w + "trace-size is " + cl::show(s));
    cl::Args ty = cl::items(call("trace-types", {db, n})); c.check(ty.size() == d.types.size(), w + "wrong number of types");
    for (size_t k = 0; k < ty.size(); k++) c.check(cl::text(ty[k]) == d.names[d.types[k].name], w + "trace-types: " + cl::show(ty[k]));
    V g = call("get-trace", {db, n});
    std::string r = diff(want(d), points_of(assoc(g, "trace"))); c.check(r.empty(), w + "get-trace: " + r);
    c.check(cl::equal(assoc(g, "input"), cl::num(m)), w + "get-trace gives the metadata of another trace: " + cl::show(assoc(g, "input")));
    c.step(3);
}
struct Shared { V db; std::vector<DTrace> t; };
static Shared & shared(mc::Ctx & c) {      // every trace in one database, loaded once
    static Shared *s = NULL;
    if (!s) { boot(); s = new Shared; s->db = make_db(); I k = 100; for (auto & t : lt()) { add(c, s->db, t, k++); s->t.push_back(dec(t)); } cl::keep_all(); }
    return *s;
}
SCENARIO(content) {
    int i = c.choose(lt().size()), what = c.choose(9);
    if (!c.mine()) return;
    c.describe(mc::strf("trace %d, view %d", i, what)); c.state(mc::mix(i, what));
    judged(c, [&]() {
        Shared & s = shared(c); static const long F[] = {0, 3, 5, (1 << 23) - 1, 4};
        if (what == 0) whole(c, s.db, i, s.t[i], 100 + i);
        else if (what <= 5) {
            V g = call("get-trace", {s.db, cl::num(i), kw("file-id"), cl::num(F[what - 1])}); c.step();
            std::string r = diff(want(s.t[i], F[what - 1]), points_of(assoc(g, "trace"))); c.check(r.empty(), mc::strf("get-trace :file-id %ld: ", F[what - 1]) + r);
        } else {
            uint64_t max = what == 6 ? 0 : what == 7 ? 1 : 3; std::string f = put_file(c, lt()[i]); cl::Args a = {cl::str(f)};
            if (max) { a.push_back(kw("max-trace-points")); a.push_back(cl::num(max)); }
            std::vector<LPoint> w = want(dec(lt()[i], max)); V g = call("read-binary-trace", a); c.step();
            std::string r = diff(w, points_of(g)); c.check(r.empty(), "read-binary-trace: " + r);
        }
        V n = call("n-traces", {s.db}); c.check(cl::in(n) == (I) lt().size(), "n-traces is " + cl::show(n));
    });
}
// every format and width, every pattern
SCENARIO(values) {
    const Type & ty = c.pick(gen::all_types());
    std::vector<Bytes> pats; if (ty.format == FB) { pats.push_back(Bytes(ty.size ? ty.size : 5, 'x')); Bytes b; for (unsigned k = 0; k < (ty.size ? ty.size : 70); k++) b += (char) (' ' + k % 95); pats.push_back(b); } else pats = gen::patterns(ty.size);
    int k = c.choose(pats.size());
    if (!c.mine()) return;
    model::Trace t; t.names = {"v", "T"}; t.types = {{1, ty.format, ty.size}}; t.points = {{stmt(1), var(0, 0, pats[k])}, {stmt(2)}};
    DTrace d; if (decode(encode(t), 0, d) != OK) return;
    c.describe(mc::strf("format %u size %u value ", ty.format, ty.size) + hex(pats[k])); c.state(mc::hash_str(c.desc));
    judged(c, [&]() {
        V db = make_db(); add(c, db, t, 1); whole(c, db, 0, d, 1);
        LQuery x; x.fv = {{0}}; bool open; std::vector<LPoint> got = points_of(assoc(ask(db, 0, d, x), "results"));
        std::string r = judge(d, x, got, open); free_db(pointer(db)); c.check(r.empty(), "query-trace: " + r);
    });
}
static void one_query(mc::Ctx & c, V db, I index, const DTrace & d, const LQuery & x, I m, int eq = 0) {
    cl::state().blocks.clear();
    V a = ask(db, index, d, x, eq); c.step();
    bool open; std::string r = judge(d, x, points_of(assoc(a, "results")), open);
    if (open) { c.count("undecided_by_rounding"); return; }
    c.check(r.empty(), "query-trace: " + r);
    c.check(cl::equal(assoc(a, "input"), cl::num(m)), "query-trace gives the metadata of another trace: " + cl::show(assoc(a, "input")));
    std::string why; c.check(released(why), why);
}
static const std::vector<std::vector<std::vector<uint32_t> > > & lfrees() {
    static const std::vector<std::vector<std::vector<uint32_t> > > v = {{}, {{0}}, {{0, 1}}, {{0}, {0}}, {{0}, {1}}, {{0, 1}, {1, 0}}, {{2}}, {{2, 0}, {2, 4}}, {{3, 5}, {0, 1}}, {{0}, {0}, {0, 1}}, {{}}, {{0}, {}}, {{0, 0}}, {{9, 0}}, {{4}, {2}}, {{0, 1, 2, 3, 4, 5, 6, 7, 8, 9}}};
    return v;
}
static std::vector<std::vector<q::Pred> > lsofts(size_t n) { auto v = q::softs(n); for (auto & s : v) { std::vector<q::Pred> r; for (auto & p : s) if (p.kind != NULL_PREDICATE) r.push_back(p); s = r; } return v; }
SCENARIO(queries) {
    int ti = c.choose(lt().size()); LQuery x; x.fv = c.pick(lfrees()); x.hard = c.pick(q::preds(x.fv.size())); x.soft = c.pick(lsofts(x.fv.size()));
    static const long F[] = {-1, 3, 0, 7, 5}; x.file = F[c.choose(c.thorough ? 5 : 3)]; x.filter = c.choose(c.thorough ? filters().size() : 5);
    static const long R[] = {-1, 0, 1, 77}; int p = c.choose(c.thorough ? 5 : 3); if (p) { x.pick = true; x.rnd = p == 1 ? 0 : p == 2 ? -1 : R[p - 1]; }
    if (!c.thorough && ((x.filter > 1) + (x.pick) + (x.file >= 0) + !x.soft.empty() > 1)) return;
    if (!c.mine()) return;
    c.describe(mc::strf("trace %d, ", ti) + show(DTrace(), x)); c.state(mc::hash_str(c.desc));
    judged(c, [&]() { Shared & s = shared(c); one_query(c, s.db, ti, s.t[ti], x, 100 + ti, ti % 2); });
}
// the options together, on the points of a file: asked for, or through a restricted view
SCENARIO(options) {
    static const std::vector<std::vector<std::vector<uint32_t> > > fr = {{}, {{0}}, {{0, 1}, {0}}}; LQuery x; size_t n = lt().size(); size_t ti = c.flip() ? n - 4 : n - 1;
    x.fv = c.pick(fr); std::vector<q::Pred> hard(1); std::vector<std::vector<q::Pred> > soft(1);
    if (!x.fv.empty()) { hard.push_back(q::op(LESS_THAN, q::val(0), q::num(5))); hard.push_back(q::op(GREATER_THAN, q::val(0), q::num(1))); soft.push_back({q::op(EQUAL, q::val(0), q::num(1))}); soft.push_back({q::op(GREATER_THAN, q::val(0), q::num(6)), q::op(EQUAL, q::val(0), q::num(2))}); }
    x.hard = c.pick(hard); x.soft = c.pick(soft); static const long F[] = {-1, 3, 0, 5, 4}; x.file = F[c.choose(5)]; x.filter = c.choose(filters().size()); bool view = x.file >= 0 && c.flip();
    int p = c.choose(4); if (p) { x.pick = true; x.rnd = p == 1 ? 0 : p == 2 ? -1 : 77; }
    if (!c.mine()) return;
    c.describe(mc::strf("trace %zu, %s", ti, view ? "restricted, " : "") + show(DTrace(), x)); c.state(mc::hash_str(c.desc));
    judged(c, [&]() {
        Shared & s = shared(c);
        if (!view) { one_query(c, s.db, ti, s.t[ti], x, 100 + ti); return; }
        V one = call("restrict-to-file", {s.db, cl::num(x.file)}); LQuery y = x; y.file = -1; cl::state().blocks.clear();
        V a = ask(one, ti, s.t[ti], y); c.step(); bool open; std::string r = judge(s.t[ti], x, points_of(assoc(a, "results")), open); c.check(r.empty(), "query-trace of the restricted database: " + r);
        c.check(cl::equal(assoc(a, "input"), cl::num(100 + (int) ti)), "restricted: the metadata of another trace");
        std::string why; c.check(released(why), why);
    });
}
// numbers and operators
SCENARIO(operators) {
    static const int R[] = {GREATER_THAN, GREATER_THAN_OR_EQUAL, LESS_THAN, LESS_THAN_OR_EQUAL, EQUAL}; static const int A[] = {ADD, SUBTRACT, MULTIPLY, DIVIDE};
    std::vector<q::Pred> leaf = {q::val(0), q::val(1), q::siz(0), q::num(0), q::num(1), q::num(2), q::num(1ull << 63), q::num(~0ull), q::num((1ull << 63) - 1), q::sig(-1), q::sig(INT64_MIN), q::flo(0.5), q::flo(-2.25), q::flo(0.1), q::flo(1e30)};
    int r = c.choose(5), shape = c.choose(3); q::Pred p;
    const q::Pred & l = c.pick(leaf);
    if (shape == 0) p = q::op(R[r], l, c.pick(leaf));
    else { int k = c.choose(4); const q::Pred & m = leaf[c.choose(c.thorough ? leaf.size() : 7)]; const q::Pred & n = leaf[c.choose(c.thorough ? leaf.size() : 4)]; q::Pred a = q::op(A[k], l, m); p = shape == 1 ? q::op(R[r], a, n) : q::op(R[r], n, a); }
    int ti = 3 + c.choose(c.thorough ? 3 : shape ? 1 : 2), wrap = c.choose(c.thorough || !shape ? 4 : 2);
    if (!c.mine()) return;
    if (wrap == 1) p = q::lnot(p); if (wrap == 2) p = q::many(OR, {p, q::distinct(0, 1)}); if (wrap == 3) p = q::many(AND, {q::op(GREATER_THAN_OR_EQUAL, q::val(1), q::num(0)), p, q::many(OR, {})});
    LQuery x; x.fv = {{0, 1, 2}, {0, 3, 5}}; x.hard = p;
    c.describe(mc::strf("trace %d, ", ti) + show(DTrace(), x)); c.state(mc::hash_str(c.desc));
    judged(c, [&]() { Shared & s = shared(c); one_query(c, s.db, ti, s.t[ti], x, 100 + ti, r % 2); });
}
// what add-trace-points stores
// points of the legacy interface: unsigned values, types by name only
static DTrace legacy(int k) {
    DTrace d; d.names = {"x", "y", "int", "*char", "X", ""}; d.types = {{2, FU, 8}, {3, FU, 8}};
    auto v = [](uint32_t n, uint32_t t, uint64_t u, bool has = false, uint64_t b = 0) { DVar x; x.name = n; x.type = t; x.format = FU; x.size = 8; x.u = u; x.has = has; x.bsize = b; return x; };
    auto pt = [&](uint64_t s, std::vector<DVar> vs) { DPoint p; p.counter = d.points.size(); p.statement = s; p.vars = vs; d.points.push_back(p); };
    if (k == 1) pt(1, {});
    if (k == 2) { pt(1, {v(0, 0, 1), v(1, 0, 2)}); pt(2, {v(0, 0, 3)}); }
    if (k == 3) { pt(sid(3, 1), {v(0, 0, (1ull << 63) - 1), v(1, 1, 1ull << 62, true, ~0ull)}); pt(sid(0, 5), {v(4, 1, 0, true, 0)}); pt((1ull << 63) - 1, {v(0, 0, 1), v(4, 0, 1)}); }
    if (k == 4) for (int i = 0; i < 40; i++) pt(i % 3, {v(i % 2, i % 2, i), v(4, 0, 3 * i)});
    if (k == 5) pt(9, {v(0, 1, 5), v(0, 0, 6), v(5, 0, 1)});
    return d;
}
static V add_points(V db, const DTrace & d, I m) { cl::Args a; for (auto & p : d.points) a.push_back(lisp_point(p, d)); return call("add-trace-points", {db, cl::list(a), meta(m)}); }
static void points_view(mc::Ctx & c, V db, I i, const DTrace & d, I m) {
    V g = call("get-trace", {db, cl::num(i)}); std::string r = diff(want(d), points_of(assoc(g, "trace"))); c.step();
    c.check(r.empty(), mc::strf("trace %d, added with add-trace-points: ", (int) i) + r);
    c.check(cl::equal(assoc(g, "input"), cl::num(m)), mc::strf("trace %d has the metadata of another trace: ", (int) i) + cl::show(assoc(g, "input")));
    V s = call("trace-size", {db, cl::num(i)}); c.check(cl::in(s) == (I) d.points.size(), "trace-size is " + cl::show(s));
}
// histories of additions; then everything is looked at, stored, restored, restricted
SCENARIO(histories) {
    int n = 1 + c.choose(c.thorough ? 4 : 3); std::vector<int> ops; for (int i = 0; i < n; i++) ops.push_back(c.choose(8)); int after = c.choose(3);
    if (!c.mine()) return;
    std::string s; for (int o : ops) s += mc::strf(" %d", o); c.describe("additions" + s + mc::strf(", then %d", after)); c.state(mc::hash_str(c.desc));
    judged(c, [&]() {
        V db = make_db(); struct E { DTrace d; bool pts; I m; }; std::vector<E> exp; I m = 1; void *extra = NULL;
        auto good = [&](int k, uint64_t max) { std::string f = put_file(c, lt()[k]); cl::Args a = {db, cl::str(f), cl::num(3), meta(m)}; if (max) { a.push_back(kw("max-trace-points")); a.push_back(cl::num(max)); } V r = call("add-trace", a); c.check(cl::yes(r), "add-trace of a good trace returns false"); exp.push_back(E{dec(lt()[k], max), false, m}); m++; };
        for (int o : ops) {
            c.step();
            if (o == 0) good(4, 0); else if (o == 1) good(8, 0); else if (o == 2) good(4, 2);
            else if (o == 3) { V r = call("add-trace", {db, cl::str(c.scratch + "/missing"), cl::num(1), meta(m++)}); c.check(!cl::yes(r), "add-trace of a missing file returns true"); }
            else if (o == 4) { std::string f = c.scratch + "/bad.bin"; Bytes b = encode(lt()[3]); b.resize(b.size() - 3); impl::write_file(f, b); V r = call("add-trace", {db, cl::str(f), cl::num(1), meta(m++)}); c.check(!cl::yes(r), "add-trace of a truncated trace returns true"); }
            else { DTrace d = legacy(o - 4); add_points(db, d, m); exp.push_back(E{d, true, m}); m++; }
        }
        V num_ = call("n-traces", {db}); c.check(cl::in(num_) == (I) exp.size(), "n-traces is " + cl::show(num_));
        V use = db;
        if (after == 1) { cl::Stream *st = new cl::Stream; call("store-object", {db, st}); use = call("restore-object", {st}); c.check(use->t == cl::INST, "the stored database does not come back"); extra = pointer(use); if (exp.empty() && !extra) { free_db(pointer(db)); return; } V k = call("n-traces", {use}); c.check(cl::in(k) == (I) exp.size(), "after restoring, n-traces is " + cl::show(k)); }
        for (size_t i = 0; i < exp.size(); i++) { E & e = exp[i]; if (e.pts) points_view(c, use, i, e.d, e.m); else { whole(c, use, i, e.d, e.m, after == 1 ? " (restored)" : ""); LQuery x; x.fv = {{0}, {0}}; x.hard = q::distinct(0, 1); one_query(c, use, i, e.d, x, e.m); } }
        c.check(cl::seq(call("trace-metadata", {use})).size() == exp.size(), "metadata for another number of traces");
        if (after == 2) for (long f : {3L, 0L}) {
            V one = call("restrict-to-file", {db, cl::num(f)});
            V k = call("n-traces", {one}); c.check(cl::in(k) == (I) exp.size(), "restricted: n-traces is " + cl::show(k));
            for (size_t i = 0; i < exp.size(); i++) {
                E & e = exp[i]; V g = call("get-trace", {one, cl::num(i)}); std::string r = diff(want(e.d, f), points_of(assoc(g, "trace"))); c.step();
                c.check(r.empty(), mc::strf("restricted to file %ld: ", f) + r); c.check(cl::equal(assoc(g, "input"), cl::num(e.m)), "restricted: the metadata of another trace");
                if (!e.pts) { LQuery x; x.fv = {{0}}; V a = ask(one, i, e.d, x); x.file = f; bool open; r = judge(e.d, x, points_of(assoc(a, "results")), open); c.check(r.empty(), mc::strf("restricted to file %ld, query-trace: ", f) + r); c.check(cl::equal(assoc(a, "input"), cl::num(e.m)), "restricted: the metadata of another trace"); }
            }
        }
        if (extra && extra != pointer(db)) free_db(extra);
        free_db(pointer(db));
    });
}
SCENARIO(added_points) {
    int k = c.choose(6);
    if (!c.mine()) return;
    c.describe(mc::strf("points %d", k)); c.state(mc::mix(k, 771));
    judged(c, [&]() { V db = make_db(); DTrace d = legacy(k); add_points(db, d, 1); points_view(c, db, 0, d, 1);
        cl::Args ty = cl::items(call("trace-types", {db, cl::num(0)})); std::set<std::string> w, g; for (auto & p : d.points) for (auto & v : p.vars) w.insert(d.names[d.types[v.type].name]); for (auto t : ty) g.insert(cl::text(t));
        for (auto & t : w) c.check(g.count(t), "trace-types lacks " + t);
        // queries by type name
        for (int a = 0; a < 2; a++) for (int b = 0; b < 3; b++) {
            if (!w.count(d.names[d.types[a].name]) || (b < 2 && !w.count(d.names[d.types[b].name]))) continue;
            LQuery x; x.fv.push_back({(uint32_t) a}); if (b < 2) x.fv.push_back({(uint32_t) b}); one_query(c, db, 0, d, x, 1);
            if (b < 2) { x.hard = q::op(LESS_THAN, q::val(0), q::val(1)); one_query(c, db, 0, d, x, 1); }
            x.hard = q::op(GREATER_THAN_OR_EQUAL, q::siz(0), q::num(1)); one_query(c, db, 0, d, x, 1);
        }
        free_db(pointer(db)); });
}
// an index outside the database is an error, never an answer
SCENARIO(indices) {
    int n = c.choose(3), k = c.choose(5), what = c.choose(4);
    if (!c.mine()) return;
    I ix = k == 0 ? (I) n : k == 1 ? -1 : k == 2 ? n + 1 : k == 3 ? ((I) 1 << 32) : ((I) 1 << 32) + n - 1;
    c.describe(mc::strf("%d traces, index ", n) + cl::itoa(ix) + mc::strf(", operation %d", what)); c.state(mc::hash_str(c.desc));
    judged(c, [&]() {
        V db = make_db(); for (int i = 0; i < n; i++) add(c, db, lt()[3], i);
        bool e = signals([&]() { if (what == 0) call("trace-size", {db, cl::num(ix)}); else if (what == 1) call("trace-types", {db, cl::num(ix)}); else if (what == 2) call("get-trace", {db, cl::num(ix)}); else { LQuery x; x.fv = {{0}}; ask(db, ix, dec(lt()[3]), x); } }); c.step();
        free_db(pointer(db)); c.check(e, "no error is signalled");
    });
}
// the same call again and again does not use up memory
SCENARIO(memory) {
    int ti = c.choose(lt().size()), what = c.choose(9);
    if (!c.mine()) return;
    if (what == 2) for (auto & p : dec(lt()[ti]).points) for (auto & v : p.vars) if (v.format == FB) return;      // the library never releases blobs
    c.describe(mc::strf("trace %d, operation %d repeated", ti, what)); c.state(mc::mix(ti, what + 50));
    judged(c, [&]() {
        Shared & s = shared(c); const DTrace & d = s.t[ti]; std::string f = put_file(c, lt()[ti]);
        LQuery x; x.fv = {{0}, {0, 1}}; if (what >= 4) x.hard = q::many(AND, {q::distinct(0, 1), q::op(LESS_THAN, q::val(0), q::num(100))}); if (what >= 5) x.soft = {q::op(EQUAL, q::val(0), q::num(1)), q::distinct(0, 1)};
        if (what == 6) x.filter = 4; if (what == 7) x.pick = true; if (what == 8) x.file = 3;
        auto once = [&]() { cl::state().blocks.clear(); if (what == 0) call("get-trace", {s.db, cl::num(ti)}); else if (what == 1) call("trace-types", {s.db, cl::num(ti)}); else if (what == 2) call("read-binary-trace", {cl::str(f)}); else ask(s.db, ti, d, x); c.step(); std::string why; if (what != 2) c.check(released(why), why); };
        once(); once(); counting(true); once(); long a = g_live; once(); once(); long b = g_live; counting(false);
        c.check(b <= a, mc::strf("two more calls leave %ld more blocks of foreign memory allocated", b - a));
    });
}
