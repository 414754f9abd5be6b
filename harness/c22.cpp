// C22: the database of s-expression traces.
#include "lispdb.hpp"
using namespace ldb;

// ---- points and traces
static DTrace none() { DTrace d; d.names = {"x", "y", "int", "*char", "X", "", "INT"}; d.types = {{2, FU, 8}, {3, FU, 8}, {6, FU, 8}}; return d; }
static DVar v(uint32_t n, uint32_t t, uint64_t u, bool has = false, uint64_t b = 0) { DVar x; x.name = n; x.type = t; x.format = FU; x.size = 8; x.u = u; x.has = has; x.bsize = b; return x; }
static DPoint shape(int k) {
    DPoint p; p.counter = 0;
    switch (k) {
    case 0: p.statement = 1; break;
    case 1: p.statement = 1; p.vars = {v(0, 0, 1)}; break;
    case 2: p.statement = 1; p.vars = {v(0, 0, 2), v(1, 0, 1)}; p.aux = {5}; break;
    case 3: p.statement = sid(3, 1); p.vars = {v(1, 0, 1), v(0, 0, 2), v(0, 1, 0x7000, true, 16)}; break;
    case 4: p.statement = sid(0, 1); p.vars = {v(0, 0, 7), v(4, 0, 8), v(0, 2, 9)}; break;
    case 5: p.statement = sid(3, 2); p.vars = {v(0, 0, 1), v(0, 0, 1), v(5, 1, 3)}; p.aux = {1, ~0ull}; break;
    case 6: p.statement = 2; p.vars = {v(0, 1, 4, true, 0), v(1, 1, 4, true, ~0ull), v(0, 0, ~0ull)}; break;
    default: p.statement = sid(5, (1ull << 40) - 1); p.vars = {v(2, 0, 1), v(3, 0, 2), v(4, 0, 3), v(5, 0, 4)}; break;
    }
    return p;
}
static const int NS = 8;
static DTrace trace_of(const std::vector<int> & s) { DTrace d = none(); for (int k : s) { d.points.push_back(shape(k)); d.points.back().counter = d.points.size() - 1; } return d; }
static V point_of(const DTrace & d, const DPoint & p) {
    V l = lisp_point(p, d); if (p.aux.empty()) return l;
    cl::Args a; for (auto x : p.aux) a.push_back(cl::num(x));
    cl::Args r = cl::items(l); r.push_back(cl::cons(kw("aux"), cl::list(a))); return cl::list(r);
}
static V list_of(const DTrace & d) { cl::Args a; for (auto & p : d.points) a.push_back(point_of(d, p)); return cl::list(a); }
static std::string text_of(const DTrace & d, int style) {
    std::string s;
    for (auto & p : d.points) { std::string t = cl::show(point_of(d, p)); s += style == 1 ? "\n  " + t : style == 2 ? t + " ; a comment ( \"\n" : t + "\n"; }
    return s;
}
// ---- files
static std::map<std::string, std::string> & files() { static std::map<std::string, std::string> f; return f; }
static int opened, closed;
static void world_() {
    boot(); auto & w = cl::state().world; if (!w.empty()) return;
    w["open"] = [](cl::Args & a) -> V { auto i = files().find(cl::text(a[0])); if (i == files().end()) throw cl::LispError{"no such file", cl::nil()}; cl::Stream *s = new cl::Stream; s->data = i->second; opened++; return s; };
    w["close"] = [](cl::Args & a) -> V { closed++; return cl::tee(); };
    w["get-internal-real-time"] = [](cl::Args &) -> V { return cl::num(0); };
    w["read"] = [](cl::Args & a) -> V {
        if (a.empty() || a[0]->t != cl::STREAM) cl::unsupported("read");
        cl::Stream *s = (cl::Stream *) a[0]; cl::Reader r(s->data); r.i = s->pos; r.skip();
        bool err = a.size() < 2 || cl::yes(a[1]);
        if (r.i >= s->data.size()) { if (err) throw cl::LispError{"end of file", cl::nil()}; return a.size() > 2 ? a[2] : cl::nil(); }
        V x; try { x = r.read(); } catch (cl::EndOfText &) { throw cl::LispError{"end of file inside an object", cl::nil()}; }
        s->pos = r.i; return x; };
}
// ---- what can be seen of trace I
static void whole(mc::Ctx & c, V db, I i, const DTrace & d, I m, long file = -1) {
    V n = cl::num(i); std::string w = mc::strf("trace %d%s: ", (int) i, file >= 0 ? mc::strf(" restricted to file %ld", file).c_str() : "");
    V g = call("get-trace", {db, n}); std::string r = diff(want(d, file), points_of(assoc(g, "trace"))); c.step();
    c.check(r.empty(), w + "get-trace: " + r);
    c.check(cl::equal(assoc(g, "input"), cl::num(m)), w + "get-trace gives the metadata of another trace: " + cl::show(assoc(g, "input")));
    if (file >= 0) return;
    V s = call("trace-size", {db, n}); c.check(cl::in(s) == (I) d.points.size(), w + "trace-size is " + cl::show(s));
    std::multiset<std::string> have, should; for (V x : cl::items(call("trace-types", {db, n}))) have.insert(cl::text(x));
    std::set<std::string> u; for (auto & p : d.points) for (auto & x : p.vars) u.insert(d.names[d.types[x.type].name]); should.insert(u.begin(), u.end());
    c.check(have == should, w + "trace-types gives other types");
    for (long f : {0L, 3L, 4L}) { g = call("get-trace", {db, n, kw("file-id"), cl::num(f)}); r = diff(want(d, f), points_of(assoc(g, "trace"))); c.check(r.empty(), w + mc::strf("get-trace :file-id %ld: ", f) + r); }
}
static void one_query(mc::Ctx & c, V db, I i, const DTrace & d, const LQuery & x, I m) {
    V a = ask(db, i, d, x); c.step(); bool open; std::string r = judge(d, x, points_of(assoc(a, "results")), open);
    c.check(r.empty(), "query-trace: " + r);
    c.check(!cl::yes(a) || cl::equal(assoc(a, "input"), cl::num(m)), "query-trace gives the metadata of another trace: " + cl::show(assoc(a, "input")));
}
SCENARIO(histories) {
    static const std::vector<std::vector<int> > T = {{1}, {2, 3, 4}, {3, 0, 5, 6}, {7, 4, 1}, {0}};
    int n = 1 + c.choose(c.thorough ? 4 : 3); std::vector<int> ops; for (int i = 0; i < n; i++) ops.push_back(c.choose(11)); int after = c.choose(2);
    if (!c.mine()) return;
    std::string s; for (int o : ops) s += mc::strf(" %d", o); c.describe("additions" + s + mc::strf(", then %d", after)); c.state(mc::hash_str(c.desc));
    judged(c, [&]() {
        world_(); files().clear(); opened = closed = 0;
        for (int k = 0; k < 5; k++) files()[mc::strf("/f%d", k)] = text_of(trace_of(T[k]), k % 3);
        files()["/empty"] = " \n"; files()["/cut"] = text_of(trace_of(T[1]), 0); files()["/cut"].resize(files()["/cut"].size() - 4);
        V db = make_db("sexp-trace-db"); struct E { DTrace d; I m; }; std::vector<E> exp; I m = 1;
        for (int o : ops) {
            c.step();
            if (o < 4) { DTrace d = trace_of(T[o]); call("add-trace-points", {db, list_of(d), meta(m)}); exp.push_back(E{d, m}); }
            else if (o < 7) { V r = call("add-trace", {db, cl::str(mc::strf("/f%d", o - 3)), o == 5 ? cl::nil() : cl::num(2), meta(m)}); c.check(cl::yes(r), "add-trace of a good trace returns false"); exp.push_back(E{trace_of(T[o - 3]), m}); }
            else if (o == 7) { V r = call("add-trace", {db, cl::str("/f2"), cl::num(2), meta(m), kw("max-trace-points"), cl::num(2)}); c.check(cl::yes(r), "add-trace of a good trace returns false"); exp.push_back(E{trace_of({3, 0}), m}); }
            else if (o == 8) { bool e = false; V r = cl::nil(); e = signals([&]() { r = call("add-trace", {db, cl::str("/missing"), cl::num(1), meta(m)}); }); c.check(e || !cl::yes(r), "add-trace of a missing file succeeds"); }
            else if (o == 9) { bool e = false; V r = cl::nil(); e = signals([&]() { r = call("add-trace", {db, cl::str("/cut"), cl::num(1), meta(m)}); }); c.check(e || !cl::yes(r), "add-trace of a damaged file succeeds"); }
            else { V r = call("add-trace", {db, cl::str("/empty"), cl::num(1), meta(m)}); c.check(!cl::yes(r), "add-trace of a file without points succeeds"); }
            m++;
        }
        c.check(opened == closed, mc::strf("%d of %d files are closed", closed, opened));
        V k = call("n-traces", {db}); c.check(cl::in(k) == (I) exp.size(), "n-traces is " + cl::show(k));
        // each trace is at one index, with its metadata
        std::vector<int> at(exp.size(), -1); cl::Args md = cl::items(call("trace-metadata", {db})); c.check(md.size() == exp.size(), "metadata for another number of traces");
        for (size_t i = 0; i < md.size(); i++) for (size_t j = 0; j < exp.size(); j++) if (cl::equal(assoc(md[i], "input"), cl::num(exp[j].m))) at[j] = i;
        for (size_t j = 0; j < exp.size(); j++) {
            c.check(at[j] >= 0, mc::strf("the metadata of addition %zu is lost", j)); whole(c, db, at[j], exp[j].d, exp[j].m);
            LQuery x; x.distinct = true; x.fv = {{0}, {0, 1}}; one_query(c, db, at[j], exp[j].d, x, exp[j].m);
        }
        if (after) for (long f : {3L, 0L}) {
            V one = call("restrict-to-file", {db, cl::num(f)}); k = call("n-traces", {one}); c.check(cl::in(k) == (I) exp.size(), "restricted: n-traces is " + cl::show(k));
            for (size_t j = 0; j < exp.size(); j++) {
                whole(c, one, at[j], exp[j].d, exp[j].m, f); LQuery x; x.distinct = true; x.fv = {{0}, {0, 1}}; V a = ask(one, at[j], exp[j].d, x); x.file = f; bool open;
                std::string r = judge(exp[j].d, x, points_of(assoc(a, "results")), open); c.check(r.empty(), mc::strf("restricted to file %ld, query-trace: ", f) + r);
            }
        }
    });
}
static const std::vector<std::vector<std::vector<uint32_t> > > & frees() { static const std::vector<std::vector<std::vector<uint32_t> > > f = {{{0}}, {{0, 1}}, {{1}}, {{0}, {0}}, {{0}, {1}}, {{0, 1}, {1, 0}}, {{2}, {0}}, {{0}, {0}, {0, 1}}, {{0, 1, 2}, {0, 1, 2}, {0, 1, 2}}, {{2, 1}, {0, 2}}}; return f; }
SCENARIO(queries) {
    int n = 1 + c.choose(c.thorough ? 3 : 2); std::vector<int> s; for (int i = 0; i < n; i++) s.push_back(c.choose(NS));
    LQuery x; x.distinct = true; x.fv = c.pick(frees()); static const long F[] = {-1, 3, 0, 7}; x.file = F[c.choose(4)]; x.filter = c.choose(filters().size()); int p = c.choose(n + 1); if (p) { x.pick = true; x.rnd = p - 1; }
    if (!c.thorough && x.filter > 1 && x.pick) return;
    if (!c.mine()) return;
    std::string t; for (int k : s) t += mc::strf(" %d", k); c.describe("points" + t + ", " + show(DTrace(), x)); c.state(mc::hash_str(c.desc));
    judged(c, [&]() { world_(); DTrace d = trace_of(s); V db = make_db("sexp-trace-db"); call("add-trace-points", {db, list_of(trace_of({7, 7})), meta(8)}); call("add-trace-points", {db, list_of(d), meta(9)}); call("add-trace-points", {db, list_of(trace_of({1})), meta(10)});
        int at = -1; cl::Args md = cl::items(call("trace-metadata", {db})); for (size_t i = 0; i < md.size(); i++) if (cl::equal(assoc(md[i], "input"), cl::num(9))) at = i;
        c.check(at >= 0, "the metadata is lost"); one_query(c, db, at, d, x, 9); });
}
SCENARIO(reading) {
    int n = c.choose(c.thorough ? 5 : 4); std::vector<int> s; for (int i = 0; i < n; i++) s.push_back(c.choose(NS)); int style = c.choose(3), max = c.choose(n + 3), cut = c.choose(3);
    if (!c.mine()) return;
    std::string t; for (int k : s) t += mc::strf(" %d", k); c.describe("points" + t + mc::strf(", style %d, limit %d, damage %d", style, max, cut)); c.state(mc::hash_str(c.desc));
    judged(c, [&]() {
        world_(); files().clear(); opened = closed = 0; DTrace d = trace_of(s); std::string x = text_of(d, style);
        if (cut == 1) x += "((:c . 1) (:scopes #(\"x\""; if (cut == 2) x += "((:c . 1) (:scopes \"x";
        files()["/t"] = x; cl::Args a = {cl::str("/t"), kw("timeout"), style == 1 ? cl::nil() : cl::num(3)}; size_t lim = max ? max : 0;     // no limit for 0
        if (max) { a.push_back(kw("max-trace-points")); a.push_back(cl::num(max)); }
        V r = cl::nil(); bool e = signals([&]() { r = call("read-sexp-trace", a); }); c.step();
        c.check(opened == closed, mc::strf("%d of %d files are closed", closed, opened));
        if (cut && e) return;                      // a damaged end is an error, or is not reached
        c.check(!e, "a good file is an error"); if (cut) c.check(lim && lim <= s.size(), "a damaged file is read to its end without an error");
        DTrace w = d; if (lim && w.points.size() > lim) w.points.resize(lim);
        std::string m = diff(want(w), points_of(r)); c.check(m.empty(), "read-sexp-trace: " + m);
    });
}
