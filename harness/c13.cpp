// C13: queries are pure: answers never depend on what ran before.
#include "query_suite.hpp"
using namespace q;

// ---- operation histories -----------------------------------------------------
static const std::vector<Query> & queries() {
    static std::vector<Query> v;
    if (v.empty()) {
        Query a; a.fv = {{0}}; a.hard = op(EQUAL, val(0), num(1)); v.push_back(a);
        a.hard = op(EQUAL, val(0), num(2)); v.push_back(a);
        a.hard = op(LESS_THAN, val(0), num(2)); v.push_back(a);
        Query b; b.fv = {{0}, {0, 1}}; b.hard = distinct(0, 1); b.mask = 1; b.st = 1; v.push_back(b);
        b.hard = op(LESS_THAN, val(1), val(0)); b.mask = 0; b.st = 0; b.soft = {op(EQUAL, val(0), num(1))}; b.keep = false; v.push_back(b);
        Query s; s.fv = {{2}}; s.hard = op(GREATER_THAN, siz(0), num(4)); v.push_back(s);
        Query n; n.mask = ~0ull; n.st = 1; n.seed = 2; v.push_back(n);
    }
    return v;
}
static model::Trace hist_trace(int k) {
    model::Trace t = tbase();
    uint64_t p = 0x1000;
    switch (k) {
    case 0: t.points = {{stmt(1), var(0, 0, le(1, 4)), var(1, 0, le(2, 4))}, {stmt(2), buf(p, 16), var(0, 2, le(p, 8)), var(0, 4, "ab")}}; break;
    case 1: t.points = {{stmt(1), var(0, 0, le(2, 4)), var(1, 0, le(1, 4))}, {stmt(2), buf(p, 3), var(0, 2, le(p, 8)), var(0, 4, "cd")}, {stmt(1), var(2, 1, le(-1, 2)), var(0, 0, le(1, 4))}}; break;
    default: t.points = {{stmt(2), var(1, 0, le(2, 4))}, {stmt(3), var(0, 2, le(p, 8)), var(1, 0, le(0, 4))}}; break;
    }
    return t;
}
struct World {
    DB *d[2];
    World() { d[0] = new DB; d[1] = new DB; }
};
static const int NOPS = 14 + 7;
static std::string apply(mc::Ctx & c, World & w, int k) {
    if (k < 14) {               // 7 queries on the first and last trace of a database
        int which = k / 7; DB & d = *w.d[which];
        if (d.t.empty()) return "";
        return check(c, d, which ? d.t.size() - 1 : 0, queries()[k % 7]);
    }
    switch (k - 14) {
    case 0: delete w.d[0]; w.d[0] = new DB; w.d[0]->add(c, hist_trace(1)); return "";
    case 1: w.d[0]->add(c, hist_trace(2)); return "";
    case 2: w.d[1]->add(c, hist_trace(0)); return "";
    case 3: { char *s = serialize_trace_db(w.d[0]->db); free(s); return ""; }
    case 4: { Bytes b = encode(hist_trace(2)); std::string f = c.scratch + "/r.bin"; impl::write_file(f, b); void *t = read_trace(f.c_str(), 5, 0); if (t) free_trace(t); return ""; }
    case 5: { char *s = serialize_trace_db(w.d[1]->db); DB *n = new DB; free_db(n->db); n->db = deserialize_trace_db(s); free(s); n->t = w.d[1]->t; delete w.d[1]; w.d[1] = n; return ""; }
    default: delete w.d[1]; w.d[1] = new DB; w.d[1]->add(c, hist_trace(0)); return "";
    }
}
static std::string unchanged(World & w) {
    for (int i = 0; i < 2; i++) for (size_t k = 0; k < w.d[i]->t.size(); k++) {
        std::string r = impl::cdiff(w.d[i]->t[k], get_trace(w.d[i]->db, k));
        if (!r.empty()) return strf("trace %zu of database %d changed: ", k, i) + r;
    }
    return "";
}
SCENARIO(histories) {
    int n = 1 + c.choose(c.thorough ? 4 : 3); std::vector<int> ops;
    for (int i = 0; i < n; i++) ops.push_back(c.choose(NOPS));
    if (n == 4 && ops[3] >= 14) return;
    if (!c.mine()) return;
    std::string s = "operations"; for (int k : ops) s += strf(" %d", k);
    c.describe(s); c.state(mc::hash_str(s));
    isolated(c, [&]() {
        World w; w.d[0]->add(c, hist_trace(0)); w.d[1]->add(c, hist_trace(1)); w.d[1]->add(c, hist_trace(2));
        for (int k : ops) { std::string r = apply(c, w, k); if (!r.empty()) c.fail(strf("operation %d: ", k) + r); }
        std::string r = unchanged(w); if (!r.empty()) c.fail(r);
        // and everything still answers
        for (int k = 0; k < 14; k++) { r = apply(c, w, k); if (!r.empty()) c.fail(strf("query %d at the end: ", k) + r); }
        r = unchanged(w); if (!r.empty()) c.fail(r);
    });
    c.step(n + 14);
}
// ---- one evaluation first, then all others ----------------------------------
static const std::vector<Pred> & many_preds() {
    static std::vector<Pred> v;
    if (v.empty()) {
        for (int k : {GREATER_THAN, GREATER_THAN_OR_EQUAL, LESS_THAN, LESS_THAN_OR_EQUAL, EQUAL}) { v.push_back(op(k, val(0), num(1))); v.push_back(op(k, val(1), num(1))); v.push_back(op(k, val(0), val(1))); v.push_back(op(k, val(1), val(0))); v.push_back(op(k, siz(0), num(4))); }
        for (auto & x : {num(0), num(2), sig(1), sig(-1), flo(1.0), flo(2.0), flo(1.5), num(~0ull), num(0x3ff0000000000000ull), num(0x100000001ull)}) v.push_back(op(EQUAL, val(0), x));
        for (int k : {ADD, SUBTRACT, MULTIPLY, DIVIDE}) { v.push_back(op(EQUAL, op(k, val(0), num(2)), num(3))); v.push_back(op(EQUAL, op(k, num(2), val(0)), num(3))); v.push_back(op(EQUAL, num(3), op(k, num(2), val(0)))); }
        Pred t = op(EQUAL, val(0), num(1)), f = op(EQUAL, val(0), num(9));
        v.push_back(lnot(t)); v.push_back(lnot(f)); v.push_back(many(AND, {t, f})); v.push_back(many(OR, {t, f})); v.push_back(many(AND, {})); v.push_back(many(OR, {})); v.push_back(many(AND, {t})); v.push_back(many(OR, {f})); v.push_back(many(AND, {t, t, f})); v.push_back(many(OR, {many(AND, {t, f})})); v.push_back(many(AND, {many(OR, {t, f})}));
        v.push_back(op(EQUAL, op(SUBTRACT, op(SUBTRACT, val(0), num(1)), num(2)), sig(-2))); v.push_back(op(EQUAL, op(SUBTRACT, val(0), op(SUBTRACT, num(1), num(2))), sig(-2)));
        v.push_back(distinct(0, 1)); v.push_back(distinct(1, 0)); v.push_back(distinct(0, 0)); v.push_back(lnot(distinct(0, 1)));
        v.push_back(op(EQUAL, siz(1), num(4))); v.push_back(nul());
    }
    return v;
}
// pairs of variables that differ in one respect
static const std::vector<std::pair<Entry, Entry> > & var_pairs() {
    static const std::vector<std::pair<Entry, Entry> > v = {
        {var(0, 0, le(1, 4)), var(0, 0, le(1, 4))}, {var(0, 0, le(1, 4)), var(1, 0, le(1, 4))}, {var(0, 0, le(1, 4)), var(0, 0, le(2, 4))}, {var(0, 0, le(2, 4)), var(0, 0, le(1, 4))},
        {var(0, 6, le(1, 8)), var(0, 0, le(1, 4))}, {var(0, 1, le(1, 2)), var(0, 0, le(1, 4))}, {var(0, 1, le(0xffff, 2)), var(0, 6, le(~0ull, 8))}, {var(0, 6, le(~0ull, 8)), var(0, 1, le(0xffff, 2))},
        {var(0, 3, db(1.0)), var(0, 6, le(0x3ff0000000000000ull, 8))}, {var(0, 6, le(0x3ff0000000000000ull, 8)), var(0, 3, db(1.0))}, {var(0, 2, le(0x1000, 8)), var(0, 0, le(1, 4))}, {var(0, 2, le(1, 8)), var(0, 2, le(0x1000, 8))},
        {var(0, 4, "ab"), var(0, 4, "ac")}, {var(0, 4, "ab"), var(0, 4, "ab")}, {var(0, 4, Bytes("ab\0", 3)), var(0, 4, "ab")}, {var(0, 4, ""), var(0, 4, "a")}};
    return v;
}
static model::Trace pair_trace(int sized) {
    // one point per pair; the free variables get types of their own per pair
    model::Trace t = tbase();
    for (auto & p : var_pairs()) {
        Point x = {stmt(t.points.size())};
        x.push_back(p.first); x.push_back(p.second);
        t.points.push_back(x);
    }
    if (sized) t.points[0].insert(t.points[0].begin(), buf(0x1000, sized == 1 ? 4 : 8));
    return t;
}
SCENARIO(one_before_all) {
    int v1 = c.choose(var_pairs().size()), p1 = c.choose(many_preds().size()), s1 = c.choose(3);
    if (!c.thorough && s1 && var_pairs()[v1].first.b != 2) return;
    if (!c.mine()) return;
    c.describe(strf("first evaluation: pair %d of trace %d, ", v1, s1) + show(many_preds()[p1])); c.state(mc::hash_str(c.desc));
    static std::vector<std::vector<std::vector<Tri> > > want;       // [trace][pair][pred]
    static std::vector<model::Trace> ts; static std::vector<DTrace> dt;
    if (ts.empty()) for (int s = 0; s < 3; s++) { ts.push_back(pair_trace(s)); DTrace d; decode(encode(ts[s]), 0, d); dt.push_back(d); }
    auto one = [&](DB & d, int s, int v, int p) {
        Query x; x.fv = {{(uint32_t) var_pairs()[v].first.b}, {(uint32_t) var_pairs()[v].second.b}}; x.hard = many_preds()[p]; x.mask = ~0ull; x.st = v;
        Answer a = answer(d.t[s], x);
        if (a.open) return;
        std::string r = agree(a, x, ask(d.db, s, x));
        if (!r.empty()) c.fail(strf("then pair %d of trace %d, ", v, s) + show(x) + ": " + r);
    };
    isolated(c, [&]() {
        DB d; for (int s = 0; s < 3; s++) d.add(c, ts[s]);
        one(d, s1, v1, p1);
        for (size_t p = 0; p < many_preds().size(); p++) { int q = (p1 + p) % many_preds().size();
            for (size_t v = 0; v < var_pairs().size(); v++) for (int s = 0; s < 3; s++) if (s == 0 || var_pairs()[v].first.b == 2 || var_pairs()[v].second.b == 2) one(d, s, v, q); }
    });
    c.step(many_preds().size() * var_pairs().size());
}
// the same query many times, with other work in between
SCENARIO(repetition) {
    int qi = c.choose(7), other = c.choose(NOPS), n = 1 + c.choose(3);
    if (!c.mine()) return;
    c.describe(strf("query %d repeated, operation %d in between, %d times", qi, other, n)); c.state(mc::hash_str(c.desc));
    World w; w.d[0]->add(c, hist_trace(0)); w.d[1]->add(c, hist_trace(1)); w.d[1]->add(c, hist_trace(2));
    std::string r;
    for (int i = 0; i < 20 && r.empty(); i++) {
        r = apply(c, w, qi); if (!r.empty()) break;
        for (int k = 0; k < n && r.empty(); k++) r = apply(c, w, other);
        if (r.empty()) r = apply(c, w, 7 + qi);
    }
    if (r.empty()) r = unchanged(w);
    delete w.d[0]; delete w.d[1];
    if (!r.empty()) c.fail(r);
}
// crowded caches: many different evaluations, variables, selections or traces
// in one process, each asked twice
SCENARIO(crowded) {
    static const std::vector<int> N = {3, 8, 9, 16, 17, 32, 33, 64, 65, 100, 128, 129, 256, 257, 512, 1000, 1024, 1025, 2048, 4096, 4097, 10001, 16385, 65537};
    int kind = c.choose(4), back = c.choose(2); size_t k = c.choose(c.thorough ? 24 : kind < 2 ? 23 : 16); int n = N[k];
    if (kind >= 2 && n > 4097) return;
    if (!c.mine()) return;
    c.describe(strf("%d different %s%s", n, kind == 0 ? "predicates" : kind == 1 ? "variable values" : kind == 2 ? "selections" : "traces", back ? ", the second time backwards" : "")); c.state(mc::hash_str(c.desc));
    isolated(c, [&]() {
        DB d; model::Trace t = tbase();
        if (kind == 0) t.points = {{stmt(1), var(0, 0, le(n / 2, 4)), var(1, 0, le(3, 4))}};
        if (kind == 1 || kind == 2) for (int i = 0; i < n; i++) t.points.push_back({stmt(i), var(0, 0, le(i, 4))});
        if (kind != 3) d.add(c, t);
        if (kind == 3) for (int i = 0; i < n; i++) { t.points = {{stmt(i % 7), var(0, 0, le(i, 4))}}; d.add(c, t); }
        auto one = [&](int i) {
            Query x; x.fv = {{0}}; size_t ti = 0;
            if (kind == 0) x.hard = op(GREATER_THAN, val(0), num(i));
            if (kind == 1) x.hard = op(LESS_THAN, val(0), num(n / 2));
            if (kind == 2) { x.mask = i % 3 ? ~0ull : (uint64_t) i; x.st = i; x.hard = op(LESS_THAN, val(0), num(n / 2)); }
            if (kind == 3) { ti = i; x.hard = op(LESS_THAN, val(0), num(n / 2)); x.mask = 7; x.st = i % 7; }
            Answer a = answer(d.t[ti], x); std::string r = agree(a, x, ask(d.db, ti, x));
            if (!r.empty()) c.fail(strf("number %d: ", i) + show(x) + ": " + r);
        };
        int m = kind == 1 ? 1 : n;
        for (int i = 0; i < m; i++) one(i);
        for (int i = 0; i < m; i++) one(back ? m - 1 - i : i);
    });
    c.step(2 * n);
}
// queries leave trace and other traces as they were, for the whole suite
SCENARIO(no_effects) {
    int ti = c.choose(8);
    if (!c.mine()) return;
    DB d; for (auto & t : traces()) d.add(c, t);
    char *before = serialize_trace_db(d.db); std::string b = before; free(before);
    for (auto & f : frees()) for (auto & p : preds(f.size())) for (auto & s : softs(f.size())) {
        Query x; x.fv = f; x.hard = p; x.soft = s; x.seed = f.size() == 1 ? 3 : 0; x.keep = s.empty();
        c.describe(strf("trace %d, ", ti) + show(x)); c.step();
        std::vector<Res> r = ask(d.db, ti, x), r2 = ask(d.db, ti, x);
        c.check(r == r2, "the same query gives another answer the second time");
        for (size_t k = 0; k < d.t.size(); k++) { std::string m = impl::cdiff(d.t[k], get_trace(d.db, k)); if (!m.empty()) c.fail("a query changed a trace: " + m); }
    }
    char *after = serialize_trace_db(d.db); std::string a = after; free(after);
    c.check(a == b, "queries changed the serialized database");
}
