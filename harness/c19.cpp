// C19: a database is exactly the sequence of its successful adds.
#define NO_PRODUCT
#include "query_suite.hpp"
using namespace q;

static model::Trace good(int k) {
    model::Trace t = tbase(); uint64_t p = 0x1000;
    switch (k) {
    case 0: t.points = {{stmt(1), var(0, 0, le(1, 4)), var(1, 0, le(2, 4))}, {stmt(2), buf(p, 16), var(0, 2, le(p, 8)), var(0, 4, "ab"), aux(9)}, {stmt(3)}}; break;
    case 1: t.names = {"q", "r", "s"}; t.types = {{2, FS, 2}, {1, FP, 8}, {0, FB, 0}}; t.points = {{stmt(1), var(0, 1, le(p, 8)), var(0, 2, "cd")}, {stmt(1), var(0, 0, le(-1, 2))}}; break;
    default: t.points.clear(); break;
    }
    return t;
}
struct File { std::string name; bool missing; Bytes b; };
static const std::vector<File> & files() {
    static std::vector<File> v;
    if (v.empty()) {
        Bytes a = encode(good(0)), b = encode(good(1)), e = encode(good(2));
        v.push_back({"good0", false, a}); v.push_back({"good1", false, b}); v.push_back({"empty", false, e});
        v.push_back({"cut-header", false, a.substr(0, 20)});                    // fails at once
        v.push_back({"cut-entry", false, a.substr(0, a.size() - 5)});           // fails after points were read
        v.push_back({"cut-between", false, b.substr(0, b.size() - 1)});         // last point dropped
        v.push_back({"bad-tag", false, b + "\x07"}); v.push_back({"missing", true, ""}); v.push_back({"nothing", false, ""});
        Bytes x = a; x[8] = 'Z'; v.push_back({"renamed", false, x});
    }
    return v;
}
struct World {
    std::vector<void *> db; std::vector<std::vector<DTrace> > want;
    std::vector<void *> tr; std::vector<DTrace> trw;       // traces read separately
    World() { for (int i = 0; i < 2; i++) { db.push_back(create_db()); want.push_back({}); } }
    ~World() { for (auto d : db) free_db(d); for (auto t : tr) free_trace(t); }
};
static std::string inspect(World & w) {
    for (size_t i = 0; i < w.db.size(); i++) {
        if (n_traces(w.db[i]) != w.want[i].size()) return strf("database %zu has %u traces, expected %zu", i, n_traces(w.db[i]), w.want[i].size());
        for (size_t k = 0; k < w.want[i].size(); k++) {
            std::string r = impl::cdiff(w.want[i][k], get_trace(w.db[i], k));
            if (r.empty()) r = diff(w.want[i][k], impl::dtrace(*(const ::Trace *) get_trace(w.db[i], k)));
            if (!r.empty()) return strf("database %zu, trace %zu: ", i, k) + r;
        }
    }
    for (size_t i = 0; i < w.tr.size(); i++) { std::string r = impl::cdiff(w.trw[i], w.tr[i]); if (!r.empty()) return strf("separate trace %zu: ", i) + r; }
    return "";
}
// the operations
static const int NF = 10;
static const int NOPS = NF + 3 + 2 + 1 + 1 + 2 + 1 + 2 + 1;
static std::string opname(int k) {
    if (k < NF) return "add " + files()[k].name;
    static const char *n[] = {"add good0 limit 1", "add good0 limit 5", "add cut-entry limit 2", "add points", "add no points", "query", "serialize+restore", "read separately", "free a separate trace", "read a bad file", "add good1 to B", "free B, new B", "add points to B"};
    return n[k - NF];
}
static DTrace points_model(int k) {
    DTrace d; d.names = {"t", "v", "u"};
    if (k) return DTrace();
    d.types = {{0, FU, 8}, {2, FS, 8}};
    DPoint p; p.counter = 0; p.statement = 77; DVar v; v.name = 1; v.type = 0; v.format = FU; v.size = 8; v.u = 5; v.has = true; v.bsize = 12; p.vars.push_back(v);
    v.type = 1; v.format = FS; v.u = (uint64_t) -5; v.has = false; v.bsize = 0; p.vars.push_back(v); p.aux = {3, 4}; d.points.push_back(p);
    p = DPoint(); p.counter = 1; p.statement = 78; d.points.push_back(p);
    return d;
}
static bool add_points(void *db, const DTrace & d) {
    std::vector<c_trace_point_struct> ps(d.points.size() + 1); std::vector<std::vector<c_trace_var_info_struct> > vs(ps.size()); std::vector<std::vector<uint64_t> > as(ps.size()); std::vector<char *> nm;
    for (size_t i = 0; i < d.points.size(); i++) {
        for (auto & v : d.points[i].vars) { c_trace_var_info_struct x; memset(&x, 0, sizeof x); x.value.u = v.u; x.var_name_index = v.name; x.type_name_index = d.types[v.type].name; x.has_buffer_size = v.has; x.buffer_size = v.bsize; vs[i].push_back(x); }
        as[i] = d.points[i].aux; memset(&ps[i], 0, sizeof ps[i]);
        ps[i].statement = d.points[i].statement; ps[i].vars = vs[i].data(); ps[i].n_vars = vs[i].size(); ps[i].aux = as[i].data(); ps[i].n_aux = as[i].size();
    }
    for (auto & n : d.names) nm.push_back((char *) n.c_str());
    return add_trace_points(db, ps.data(), d.points.size(), nm.data(), d.names.size());
}
static std::string path(mc::Ctx & c, int k) { return c.scratch + "/" + files()[k].name; }
static std::string add(mc::Ctx & c, World & w, int which, int k, uint64_t max) {
    DTrace d; Status s = files()[k].missing ? FAIL : decode(files()[k].b, max, d);
    int ok = add_trace(w.db[which], path(c, k).c_str(), 5, max);
    if ((s == OK) != (ok != 0)) return strf("add of %s reports %d", files()[k].name.c_str(), ok);
    if (s == OK) w.want[which].push_back(d);
    return "";
}
static std::string apply(mc::Ctx & c, World & w, int k) {
    if (k < NF) return add(c, w, 0, k, 0);
    switch (k - NF) {
    case 0: return add(c, w, 0, 0, 1);
    case 1: return add(c, w, 0, 0, 5);
    case 2: return add(c, w, 0, 4, 2);
    case 3: case 12: case 4: { int which = k - NF == 12; DTrace d = points_model(k - NF == 4); if (!add_points(w.db[which], d)) return "adding points reports failure"; w.want[which].push_back(d); return ""; }
    case 5: for (size_t i = 0; i < w.want[0].size(); i++) { Query x; x.fv = {{0, 1}}; x.hard = op(LESS_THAN, val(0), num(100)); x.soft = {op(EQUAL, val(0), num(1))}; std::string r = agree(answer(w.want[0][i], x), x, ask(w.db[0], i, x)); if (!r.empty()) return strf("query of trace %zu: ", i) + r; } return "";
    case 6: { char *s = serialize_trace_db(w.db[0]); void *n = deserialize_trace_db(s); free(s); free_db(w.db[0]); w.db[0] = n; return ""; }
    case 7: { void *t = read_trace(path(c, 0).c_str(), 5, 0); if (!t) return "a good file cannot be read"; DTrace d; decode(files()[0].b, 0, d); w.tr.push_back(t); w.trw.push_back(d); return ""; }
    case 8: if (!w.tr.empty()) { free_trace(w.tr[0]); w.tr.erase(w.tr.begin()); w.trw.erase(w.trw.begin()); } return "";
    case 9: if (read_trace(path(c, 4).c_str(), 5, 0)) return "a cut file can be read"; return "";
    case 10: return add(c, w, 1, 1, 0);
    case 11: free_db(w.db[1]); w.db[1] = create_db(); w.want[1].clear(); return "";
    }
    return "";
}
static void history(mc::Ctx & c, const std::vector<int> & ops) {
    static bool done = false; if (!done) { for (size_t i = 0; i < files().size(); i++) if (!files()[i].missing) impl::write_file(path(c, i), files()[i].b); done = true; }
    std::string s; for (int k : ops) s += opname(k) + "; ";
    c.describe(s); c.state(mc::hash_str(s));
    World w; std::string r;
    for (size_t i = 0; i < ops.size(); i++) {
        r = apply(c, w, ops[i]); if (!r.empty()) c.fail(r);
        r = inspect(w); if (!r.empty()) c.fail("after " + opname(ops[i]) + ": " + r);
        c.step();
    }
    free_db(w.db[0]); w.db[0] = create_db(); w.want[0].clear();     // the other one goes on without it
    r = inspect(w); if (!r.empty()) c.fail("after freeing the first database: " + r);
}
SCENARIO(histories) {
    int n = 1 + c.choose(c.thorough ? 5 : 4); std::vector<int> ops;
    for (int i = 0; i < n; i++) ops.push_back(c.choose(NF + 13));
    if (n == 5) { static const bool keep[] = {1, 1, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 1, 1, 0, 0, 0, 1, 1, 0}; for (int k : ops) if (!keep[k]) return; }
    if (!c.mine()) return;
    history(c, ops);
}
// many adds: every failure at every place of a long sequence of successes
SCENARIO(long_histories) {
    static const int N[] = {1, 2, 3, 5, 8, 9, 16, 17, 33, 70, 255, 256, 257, 300}; static const int BAD[] = {3, 4, 6, 7, 8, 19};
    int n = N[c.choose(14)], bad = BAD[c.choose(6)], g = c.choose(4); int at = n > 100 ? c.choose(2) * n : c.choose(n + 1);
    if (!c.mine()) return;
    static const int G[] = {0, 1, 10, 13}; std::vector<int> ops;
    for (int i = 0; i < n; i++) { if (i == at) ops.push_back(bad); ops.push_back(g == 3 ? G[i % 4] : G[g]); }
    if (at == n) ops.push_back(bad);
    history(c, ops);
}
// every cut of the file being added, after and before good ones
SCENARIO(all_cuts) {
    int g = c.choose(2); Bytes b = encode(good(g)); int cut = c.choose(b.size() + 1), lim = c.choose(4);
    if (!c.mine()) return;
    Bytes x = b.substr(0, cut);
    c.describe(strf("trace %d cut to %d bytes, limit %d", g, cut, lim)); c.state(mc::hash_str(c.desc));
    std::string f = c.scratch + "/cut", o = c.scratch + "/whole"; impl::write_file(f, x); impl::write_file(o, b);
    World w; DTrace whole, part; decode(b, 0, whole); Status s = decode(x, lim, part);
    c.check(add_trace(w.db[0], o.c_str(), 5, 0), "a good file is rejected"); w.want[0].push_back(whole);
    int ok = add_trace(w.db[0], f.c_str(), 5, lim); c.check((ok != 0) == (s == OK), strf("add reports %d", ok)); if (s == OK) w.want[0].push_back(part);
    std::string r = inspect(w); if (!r.empty()) c.fail(r);
    c.check(add_trace(w.db[0], o.c_str(), 5, 0), "a good file is rejected"); w.want[0].push_back(whole);
    c.check(add_trace(w.db[1], o.c_str(), 5, 0), "a good file is rejected"); w.want[1].push_back(whole);
    r = inspect(w); if (!r.empty()) c.fail(r);
    c.step(4);
}
