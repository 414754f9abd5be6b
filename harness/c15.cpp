// C15: traces added concurrently all arrive intact.
#define NO_PRODUCT
#include <pthread.h>
#include "sched.hpp"
#include "query_suite.hpp"
using namespace q;

// small traces which share names, types, variables and points
static model::Trace tr(int k) {
    model::Trace t; uint64_t p = 0x1000;
    t.names = {"x", "int", "ptr", "blob"}; t.types = {{1, FS, 4}, {2, FP, 8}, {3, FB, 0}};
    switch (k) {
    case 0: t.points = {{stmt(1), var(0, 0, le(7, 4))}}; break;
    case 1: t.points = {{stmt(1), var(0, 0, le(7, 4))}, {stmt(2), var(0, 2, "ab")}}; break;
    case 2: t.points = {{stmt(3), buf(p, 16), var(0, 1, le(p + 4, 8)), aux(5)}}; break;
    case 3: t.points = {{stmt(1), var(0, 2, "cd"), aux(6)}, {stmt(1), var(0, 0, le(7, 4)), aux(9)}}; break;
    case 4:                     // every way of reading a value
        t.names = {"x", "s1", "s2", "s4", "s8", "u", "f", "p4", "fixed", "sized"};
        t.types = {{1, FS, 1}, {2, FS, 2}, {3, FS, 4}, {4, FS, 8}, {5, FU, 2}, {6, FF, 8}, {7, FP, 4}, {8, FB, 3}, {9, FB, 0}};
        t.points = {{stmt(1), var(0, 0, le(-2, 1)), var(0, 1, le(-3, 2)), var(0, 2, le(-4, 4)), var(0, 3, le(-5, 8)), var(0, 4, le(6, 2)),
                     buf(p, 8), var(0, 5, le(0x3ff0000000000000ull, 8)), var(0, 6, le(p, 4)), var(0, 7, "xyz"), var(0, 8, "uv"), aux(1)}}; break;
    case 5: t = tr(4); t.names[0] = "yy"; t.names[3] = "long"; t.types[1].size = 4; t.types[2].size = 2;
        t.points = {{stmt(2), buf(p, 32), var(0, 0, le(3, 1)), var(3, 1, le(4, 4)), var(0, 2, le(5, 2)), var(0, 3, le(7, 8)), var(0, 4, le(8, 2)),
                     var(0, 5, le(0x4000000000000000ull, 8)), var(0, 6, le(p + 1, 4)), var(0, 7, "abc"), var(0, 8, "w"), aux(2)}}; break;
    default: t.points.clear();
    }
    return t;
}
struct File { const char *name; Bytes b; bool missing; };
static const std::vector<File> & files() {
    static std::vector<File> v;
    if (v.empty()) {
        v.push_back({"one", encode(tr(0)), false}); v.push_back({"blob", encode(tr(1)), false}); v.push_back({"pointer", encode(tr(2)), false});
        v.push_back({"blob2", encode(tr(3)), false}); v.push_back({"empty", encode(tr(9)), false});
        Bytes a = encode(tr(1)); v.push_back({"cut", a.substr(0, a.size() - 2), false});
        v.push_back({"missing", "", true});
        v.push_back({"types", encode(tr(4)), false}); v.push_back({"types2", encode(tr(5)), false});
    }
    return v;
}
struct Add { int file, db; };              // file 7: add_trace_points; db 2: a database of its own
typedef std::vector<Add> Program;
static const int NF = 7, OWN = 2, TYPES = 8;
static const File & file_(int k) { return files()[k > NF ? k - 1 : k]; }
static std::string show(const std::vector<Program> & ps) {
    std::string s;
    for (auto & p : ps) { s += "["; for (auto & a : p) s += strf("%s->%s ", a.file == NF ? "points" : file_(a.file).name, a.db == OWN ? "own" : a.db ? "B" : "A"); s += "] "; }
    return s;
}
static DTrace points() {
    DTrace d; d.names = {"x", "int"}; d.types = {{1, FU, 8}};
    DPoint p; p.counter = 0; p.statement = 4; p.aux = {5};
    DVar v; v.name = 0; v.type = 0; v.format = FU; v.size = 8; v.u = 7; v.has = false; v.bsize = 0; p.vars.push_back(v);
    d.points.push_back(p);
    return d;
}
static int add_points(void *db) {
    c_trace_point_struct p; memset(&p, 0, sizeof p); c_trace_var_info_struct v; memset(&v, 0, sizeof v); uint64_t a = 5;
    char x[] = "x", i[] = "int"; char *nm[2] = {x, i};
    v.value.u = 7; v.var_name_index = 0; v.type_name_index = 1; p.statement = 4; p.vars = &v; p.n_vars = 1; p.aux = &a; p.n_aux = 1;
    return add_trace_points(db, &p, 1, nm, 2);
}
static bool expected(int file, DTrace & d) {
    if (file == NF) { d = points(); return true; }
    return !file_(file).missing && decode(file_(file).b, 0, d) == model::OK;
}
struct Job { const Program *p; void **db; const std::string *dir; std::vector<int> ok; std::string bad; };
static void *work(void *a) {
    Job & j = *(Job *) a;
    for (auto & x : *j.p) {
        void *db = x.db == OWN ? create_db() : j.db[x.db];
        int ok;
        if (x.file == NF) ok = add_points(db);
        else { std::string f = *j.dir + "/" + file_(x.file).name; ok = add_trace(db, f.c_str(), 5, 0); }
        j.ok.push_back(ok);
        if (x.db == OWN) {
            DTrace d; bool good = expected(x.file, d);
            if (n_traces(db) != (good ? 1u : 0u)) j.bad = strf("a database of one thread has %u traces", n_traces(db));
            else if (good) { j.bad = impl::cdiff(d, get_trace(db, 0)); if (!j.bad.empty()) j.bad = "a database of one thread: " + j.bad; }
            free_db(db);
        }
    }
    return NULL;
}
static std::string run(const std::vector<Program> & ps, const Program & before, const std::string & dir) {
    void *db[2] = {create_db(), create_db()};
    std::vector<std::vector<DTrace> > want(2);
    auto expect = [&](const Add & a, int ok) -> std::string {
        DTrace d; bool good = expected(a.file, d);
        if ((ok != 0) != good) return strf("add of %s returns %d", a.file == NF ? "points" : file_(a.file).name, ok);
        if (good && a.db != OWN) want[a.db].push_back(d);
        return "";
    };
    Job b0{&before, db, &dir, {}, ""}; work(&b0);
    for (size_t i = 0; i < before.size(); i++) { std::string m = expect(before[i], b0.ok[i]); if (!m.empty()) return m; }
    size_t fixed[2] = {want[0].size(), want[1].size()};
    std::vector<Job> jobs; for (auto & p : ps) jobs.push_back(Job{&p, db, &dir, {}, ""});
    for (auto & j : jobs) j.ok.reserve(8);
    std::vector<pthread_t> th(ps.size());
    for (size_t i = 0; i < ps.size(); i++) if (pthread_create(&th[i], NULL, work, &jobs[i])) return "no thread";
    for (auto & t : th) pthread_join(t, NULL);
    for (auto & j : jobs) if (!j.bad.empty()) return j.bad;
    for (size_t i = 0; i < ps.size(); i++)
        for (size_t k = 0; k < ps[i].size(); k++) { std::string m = expect(ps[i][k], jobs[i].ok[k]); if (!m.empty()) return m; }
    for (int d = 0; d < 2; d++) {
        if (n_traces(db[d]) != want[d].size()) return strf("database %d has %u traces, expected %zu", d, n_traces(db[d]), want[d].size());
        std::vector<bool> used(want[d].size());
        for (size_t i = 0; i < want[d].size(); i++) {
            const void *t = get_trace(db[d], i); bool hit = false; std::string why;
            for (size_t k = 0; k < want[d].size() && !hit; k++) {
                if (used[k] || ((i < fixed[d]) != (k < fixed[d])) || (i < fixed[d] && i != k)) continue;
                why = impl::cdiff(want[d][k], t);
                if (why.empty()) why = diff(want[d][k], impl::dtrace(*(const ::Trace *) t));
                if (why.empty()) { used[k] = hit = true; }
            }
            if (!hit) return strf("database %d: trace %zu is none of the remaining ones added: ", d, i) + why;
        }
    }
    free_db(db[0]); free_db(db[1]);
    return "";
}
static const int PARTS = 16;
static void explore(mc::Ctx & c, const std::vector<Program> & ps, const Program & before, int bound) {
    int part = c.choose(PARTS);
    if (!c.mine()) return;
    c.describe("threads " + show(ps) + (before.empty() ? "" : "after " + show({before})) + strf("preemptions <= %d, part %d", bound, part));
    for (auto & f : files()) if (!f.missing) impl::write_file(c.scratch + "/" + f.name, f.b);
    sched::Result r = sched::explore(c, bound, part, PARTS, [&] { return run(ps, before, c.scratch); });
    c.count(strf("decisions in the longest execution (bound %d) at least %llu00", bound, (unsigned long long) r.maxdec / 100), 1);
}
// both orders of starting are schedules, so a <= b suffices
SCENARIO(two_threads) {
    int a = c.choose(NF + 1), b = a + c.choose(NF + 1 - a), d = c.choose(3);
    explore(c, {{{a, 0}}, {{b, d}}}, {}, 1);
}
SCENARIO(into_a_used_database) {
    int k = c.choose(3), a = c.choose(NF + 1), b = a + c.choose(NF + 1 - a);
    if (!c.thorough && k == 2) return;
    explore(c, {{{a, 0}}, {{b, 0}}}, k == 2 ? Program{{0, 0}, {1, 0}, {2, 0}} : Program{{k ? 3 : 0, 0}}, 1);
}
SCENARIO(all_types) {
    int a = TYPES + c.choose(2), b = c.choose(3), d = c.choose(2);
    b = b == 2 ? 0 : TYPES + b;
    explore(c, {{{a, 0}}, {{b, d}}}, {}, 1);
}
SCENARIO(own_databases) {
    int a = c.choose(NF + 1), b = a + c.choose(NF + 1 - a);
    explore(c, {{{a, OWN}}, {{b, OWN}}}, {}, 1);
}
SCENARIO(two_preemptions) {
    static const std::vector<std::pair<int, int> > q = {{0, 0}, {0, 2}, {0, 4}, {0, 5}, {4, 4}, {5, 5}};
    int a, b, d = 0;
    if (c.thorough) { a = c.choose(NF + 1); b = a + c.choose(NF + 1 - a); d = c.choose(3); }
    else { auto & p = c.pick(q); a = p.first; b = p.second; }
    explore(c, {{{a, 0}}, {{b, d}}}, {}, 2);
}
SCENARIO(three_threads) {
    int a = c.choose(NF + 1), b = a + c.choose(NF + 1 - a), e = b + c.choose(NF + 1 - b);
    if (!c.thorough && !(a == 0 && (b == 0 || b == 5) && e != 1 && e != 3)) return;
    explore(c, {{{a, 0}}, {{b, 0}}, {{e, 0}}}, {}, 1);
}
SCENARIO(two_adds_each) {
    static const std::vector<Program> p = {{{0, 0}, {1, 0}}, {{5, 0}, {0, 0}}, {{3, OWN}, {0, 0}}, {{2, 0}, {2, 1}}, {{NF, 0}, {1, OWN}}};
    int a = c.choose(p.size()), b = a + c.choose(p.size() - a);
    explore(c, {p[a], p[b]}, {}, 1);
}
SCENARIO_T(three_preemptions, 2) {
    static const std::vector<std::pair<int, int> > q = {{4, 4}, {0, 4}, {0, 0}};
    auto p = c.pick(q);
    explore(c, {{{p.first, 0}}, {{p.second, 0}}}, {}, 3);
}
