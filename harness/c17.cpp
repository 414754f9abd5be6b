// C17: the C interface returns faithful, independent copies.
#define NO_PRODUCT
#include "query_suite.hpp"
using namespace q;
extern "C" size_t __sanitizer_get_current_allocated_bytes();

static void scribble(c_trace_point_struct *p, uint64_t n) {     // the caller does as it likes
    for (uint64_t i = 0; i < n; i++) {
        memset(p[i].vars, 0xa5, p[i].n_vars * sizeof *p[i].vars);
        memset(p[i].aux, 0x5a, p[i].n_aux * sizeof *p[i].aux);
        c_trace_var_info_struct *v = p[i].vars; uint64_t *a = p[i].aux;
        memset(&p[i], 0x77, sizeof p[i]); p[i].vars = v; p[i].aux = a;
    }
}
// text of an array of points, everything in it
static std::string text(const c_trace_point_struct *p, uint64_t n) {
    std::string s = strf("%llu points", (unsigned long long) n);
    for (uint64_t i = 0; i < n; i++) {
        s += strf(" [%llx", (unsigned long long) p[i].statement);
        for (uint32_t j = 0; j < p[i].n_vars; j++) { const c_trace_var_info_struct & v = p[i].vars[j];
            s += " " + vtext(v.var_name_index, v.type_name_index, v.format, v.size, v.value.u, v.format == BLOB ? Bytes((char *) v.value.ptr, v.size) : Bytes(), v.has_buffer_size, v.buffer_size); }
        for (uint32_t j = 0; j < p[i].n_aux; j++) s += strf(" a%llx", (unsigned long long) p[i].aux[j]);
        s += "]";
    }
    return s;
}
static model::Trace base() {
    model::Trace t = tbase();
    return t;
}
static const std::vector<Entry> & entries() {
    static const std::vector<Entry> a = {
        var(0, 0, le(0xfffffffe, 4)), var(1, 1, le(-3, 2)), var(2, 2, le(0x1004, 8)), var(0, 3, db(-0.5)), var(1, 4, Bytes("a\0b", 3)), var(2, 4, ""),
        var(0, 5, fl(2.5)), var(1, 6, le(0xfedcba9876543210ull, 8)), var(2, 7, "\xff\x80"), buf(0x1000, 16), aux(0), aux(0x8877665544332211ull)};
    return a;
}
static void arrays(mc::Ctx & c, const DB & d, size_t k) {
    const DTrace & w = d.t[k]; const void *t = get_trace(d.db, k);
    size_t before = __sanitizer_get_current_allocated_bytes();
    std::string r = impl::cdiff(w, t); if (!r.empty()) c.fail(r);
    size_t after = __sanitizer_get_current_allocated_bytes();
    c.check(before == after, strf("freeing the arrays leaves %zd bytes", (ssize_t) (after - before)));
    uint64_t n = trace_size(t);
    c_trace_point_struct *a = get_points(t), *b = get_points(t);
    std::string ta = text(a, n);
    c.check(text(b, n) == ta, "two copies of the points differ");
    const char **n1 = get_names(t), **n2 = get_names(t), **y1 = get_types(t), **y2 = get_types(t);
    if (n) {
        // b is the caller's: keep its shape for freeing, change the rest
        std::vector<uint32_t> nv, na; for (uint64_t i = 0; i < n; i++) { nv.push_back(b[i].n_vars); na.push_back(b[i].n_aux); }
        scribble(b, n);
        c.check(text(a, n) == ta, "changing one copy of the points changes another");
    }
    for (size_t i = 0; i < w.names.size(); i++) n2[i] = NULL;
    for (size_t i = 0; i < w.types.size(); i++) y2[i] = NULL;
    r = impl::cdiff(w, t); if (!r.empty()) c.fail("changing a copy changes the database: " + r);
    free_trace_points(b, n); free(n2); free(y2);
    r = impl::cdiff(w, t); if (!r.empty()) c.fail("freeing a copy changes the database: " + r);
    c.check(text(a, n) == ta, "freeing one copy of the points changes another");
    Query x; x.fv = {{0, 1, 2, 3, 4, 5, 6, 7}}; if (w.points.size() < 200) { r = check(c, d, k, x); if (!r.empty()) c.fail(r); }
    for (size_t i = 0; i < w.names.size(); i++) c.check(w.names[i] == n1[i], "a names array changed by itself");
    for (size_t i = 0; i < w.types.size(); i++) c.check(w.names[w.types[i].name] == y1[i], "a types array changed by itself");
    c.check(text(a, n) == ta, "a points array changed by itself");
    free(n1); free(y1);
    free_trace_points(a, n);
    c.step(6);
}
SCENARIO(point_arrays) {
    int L = c.choose(c.thorough ? 5 : 4); Point p = {stmt(0x8000000000000001ull)};
    for (int i = 0; i < L; i++) p.push_back(c.pick(entries()));
    if (!c.mine()) return;
    model::Trace t = base(); t.points = {p, {stmt(2), aux(7)}, p};
    c.describe(show(t)); c.state(mc::hash_str(c.desc));
    DB d; d.add(c, t); arrays(c, d, 0);
}
SCENARIO(array_counts) {
    static const uint64_t N[] = {0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 65535, 65536, 65537};
    int k = c.choose(5); uint64_t n = N[c.choose(34)];
    if (!c.mine()) return;
    model::Trace t = base(); Point p = {stmt(5)};
    switch (k) {
    case 0: for (uint64_t i = 0; i < n; i++) t.points.push_back({stmt(i), var(i % 3, 0, le(i, 4)), aux(i)}); break;
    case 1: for (uint64_t i = 0; i < n; i++) p.push_back(var(i % 3, 0, le(i, 4))); t.points = {p, {stmt(1), var(1, 0, le(1, 4))}}; break;
    case 2: for (uint64_t i = 0; i < n; i++) p.push_back(aux(i)); t.points = {{stmt(1), aux(1)}, p}; break;
    case 3: t.names.clear(); for (uint64_t i = 0; i < n; i++) t.names.push_back(gen::nm(i)); t.types.clear(); if (n) t.types = {{(uint32_t) n - 1, FU, 4}}; t.points = {{stmt(1)}}; break;
    case 4: t.types.clear(); for (uint64_t i = 0; i < n; i++) t.types.push_back(Type{(uint32_t) (i % 8), (uint32_t) (i % 4), (uint32_t) (4u << (i & 1))}); t.points = {{stmt(1)}}; break;
    }
    c.describe(strf("kind %d, %llu", k, (unsigned long long) n)); c.state(mc::hash_str(c.desc));
    DB d; d.add(c, t);
    if (k == 0 || n < 5000) arrays(c, d, 0);
    else { std::string r = impl::cdiff(d.t[0], get_trace(d.db, 0)); if (!r.empty()) c.fail(r); c.step(); }
}
// several results alive at once, changed and freed in every order
static const std::vector<Query> & qs() {
    static std::vector<Query> v;
    if (v.empty()) {
        Query x; v.push_back(x);
        x.fv = {{0, 1}}; v.push_back(x);
        x.fv = {{2, 4}}; v.push_back(x);
        x.fv = {{0}, {0, 1}}; x.hard = distinct(0, 1); v.push_back(x);
        x.fv = {{0}}; x.hard = op(LESS_THAN, val(0), num(5)); x.keep = false; v.push_back(x);
        x.fv = {{77}}; x.hard = nul(); v.push_back(x);
        x.fv = {{0}}; x.soft = {op(EQUAL, val(0), num(1))}; x.keep = true; v.push_back(x);
    }
    return v;
}
SCENARIO(results_alive) {
    int ti = c.choose(8), a = c.choose(7), b = c.choose(7), ti2 = c.choose(3), what = c.choose(6);
    if (!c.mine()) return;
    c.describe(strf("traces %d and %d, queries %d and %d, action %d", ti, ti2 + 3, a, b, what)); c.state(mc::hash_str(c.desc));
    DB *dp = new DB; DB & d = *dp; for (auto & t : traces()) d.add(c, t);
    int tb = ti2 + 3;
    auto run = [&](int k, const Query & x, c_trace_point_struct **r, uint64_t *n) {
        CQuery *cq = new CQuery(x); *r = NULL; *n = 0;
        query_trace(d.db, k, cq->fv.data(), cq->fv.size(), cq->hard, cq->soft.data(), cq->soft.size(), x.seed, x.keep, x.mask, x.st, r, n);
        delete cq;              // the query is the caller's too
    };
    c_trace_point_struct *ra, *rb, *rc; uint64_t na, nb, nc; std::string r;
    run(ti, qs()[a], &ra, &na);
    r = agree(answer(d.t[ti], qs()[a]), qs()[a], convert(ra, na, !qs()[a].fv.empty())); if (!r.empty()) c.fail(r);
    std::string ta = text(ra, na);
    run(tb, qs()[b], &rb, &nb);
    r = agree(answer(d.t[tb], qs()[b]), qs()[b], convert(rb, nb, !qs()[b].fv.empty())); if (!r.empty()) c.fail(r);
    std::string tbx = text(rb, nb);
    c.check(text(ra, na) == ta, "a result changed when another query ran");
    bool gone = false;
    switch (what) {
    case 0: free_trace_points(rb, nb); rb = NULL; nb = 0; break;
    case 1: { std::vector<uint32_t> s; scribble(rb, nb); free_trace_points(rb, nb); rb = NULL; break; }
    case 2: run(tb, qs()[b], &rc, &nc); c.check(text(rc, nc) == tbx, "the same query gives another answer"); scribble(rc, nc); c.check(text(rb, nb) == tbx, "changing one result changes another"); free_trace_points(rc, nc); break;
    case 3: { char *s = serialize_trace_db(d.db); free(s); break; }
    case 4: { void *o = create_db(); std::string f = c.scratch + "/q.bin"; add_trace(o, f.c_str(), 5, 0); free_db(o); break; }
    case 5: d.add(c, traces()[3]); break;
    }
    c.check(text(ra, na) == ta, "a result changed when something else happened");
    for (size_t k = 0; k < d.t.size(); k++) { r = impl::cdiff(d.t[k], get_trace(d.db, k)); if (!r.empty()) c.fail("database changed: " + r); }
    r = check(c, d, ti, qs()[a]); if (!r.empty()) c.fail(r);
    r = check(c, d, tb, qs()[b]); if (!r.empty()) c.fail(r);
    c.check(text(ra, na) == ta, "a result changed in the end");
    if (rb) { c.check(text(rb, nb) == tbx, "the other result changed"); free_trace_points(rb, nb); }
    (void) gone;
    free_trace_points(ra, na);
    delete dp;
    c.step(8);
}
// ---- points added from C structures ----------------------------------------
struct CV { uint64_t u; uint32_t name, type; bool has; uint64_t bs; };
struct CP { uint64_t st; std::vector<CV> v; std::vector<uint64_t> aux; };
static std::string cshow(const std::vector<CP> & ps) {
    std::string s;
    for (auto & p : ps) { s += strf(" {%llx", (unsigned long long) p.st); for (auto & v : p.v) s += strf(" v(%llx n%u t%u%s)", (unsigned long long) v.u, v.name, v.type, v.has ? strf(" b%llu", (unsigned long long) v.bs).c_str() : ""); for (auto a : p.aux) s += strf(" a%llx", (unsigned long long) a); s += "}"; if (s.size() > 1500) break; }
    return s;
}
static void add_points(mc::Ctx & c, const std::vector<CP> & ps, const std::vector<std::string> & names, int extra) {
    void *d = create_db();
    if (extra) { std::string f = c.scratch + "/x.bin"; impl::write_file(f, encode(traces()[3])); c.check(add_trace(d, f.c_str(), 5, 0), "a well-formed trace is rejected"); }
    c_trace_point_struct *cp = (c_trace_point_struct *) calloc(ps.size() + 1, sizeof *cp);
    for (size_t i = 0; i < ps.size(); i++) {
        cp[i].statement = ps[i].st; cp[i].n_vars = ps[i].v.size(); cp[i].n_aux = ps[i].aux.size();
        cp[i].vars = (c_trace_var_info_struct *) calloc(ps[i].v.size(), sizeof *cp[i].vars); cp[i].aux = (uint64_t *) calloc(ps[i].aux.size(), 8);
        for (size_t j = 0; j < ps[i].v.size(); j++) { c_trace_var_info_struct & x = cp[i].vars[j]; const CV & v = ps[i].v[j];
            x.value.u = v.u; x.var_name_index = v.name; x.type_name_index = v.type; x.has_buffer_size = v.has; x.buffer_size = v.bs; x.format = UNSIGNED; x.size = 8; }
        for (size_t j = 0; j < ps[i].aux.size(); j++) cp[i].aux[j] = ps[i].aux[j];
    }
    std::vector<char *> nm; for (auto & n : names) nm.push_back(strdup(n.c_str())); nm.push_back(NULL);
    int ok = add_trace_points(d, cp, ps.size(), nm.data(), names.size());
    for (auto n : nm) { if (n) memset(n, '?', strlen(n)); free(n); }
    scribble(cp, ps.size()); free_trace_points(cp, ps.size());
    c.check(ok, "adding points reports failure");
    uint32_t k = extra ? 1 : 0;
    c.check(n_traces(d) == k + 1, "the number of traces is wrong");
    std::map<uint32_t, bool> neg; for (auto & p : ps) for (auto & v : p.v) { neg[v.type] |= (int64_t) v.u < 0; }
    for (int round = 0; round < 3; round++) {
        if (round == 1) { char *s = serialize_trace_db(d); void *e = deserialize_trace_db(s); free(s); free_db(d); d = e; }
        if (round == 2) { std::string f = c.scratch + "/x.bin"; impl::write_file(f, encode(traces()[4])); c.check(add_trace(d, f.c_str(), 5, 0), "a well-formed trace is rejected"); }
        const void *t = get_trace(d, k); std::string r;
        c.check(trace_size(t) == ps.size(), strf("expected %zu points, got %llu", ps.size(), (unsigned long long) trace_size(t)));
        c.check(n_names(t) == names.size(), "the number of names is wrong");
        const char **g = get_names(t); for (size_t i = 0; i < names.size(); i++) if (names[i] != g[i]) r = strf("name %zu is '%s'", i, g[i]); free(g);
        if (!r.empty()) c.fail(r);
        c.check(n_types(t) == neg.size(), "the number of types is not the number of type names in use");
        std::vector<std::string> tn, wn; const char **y = get_types(t); for (uint32_t i = 0; i < n_types(t); i++) tn.push_back(y[i]); free(y);
        for (auto & n : neg) wn.push_back(names[n.first]);
        std::sort(tn.begin(), tn.end()); std::sort(wn.begin(), wn.end()); c.check(tn == wn, "the types do not have the names in use");
        model::DTrace dt = impl::dtrace(*(const ::Trace *) t);    // points are told apart by their position
        for (size_t i = 0; i < ps.size(); i++) if (dt.points[i].counter != i) c.fail(strf("point %zu has the counter %llu", i, (unsigned long long) dt.points[i].counter));
        c_trace_point_struct *p = get_points(t);
        for (size_t i = 0; i < ps.size() && r.empty(); i++) {
            if (p[i].statement != ps[i].st) r = strf("point %zu: statement %llx", i, (unsigned long long) p[i].statement);
            else if (p[i].n_vars != ps[i].v.size() || p[i].n_aux != ps[i].aux.size()) r = strf("point %zu: %u variables, %u auxiliary values", i, p[i].n_vars, p[i].n_aux);
            for (size_t j = 0; j < ps[i].aux.size() && r.empty(); j++) if (p[i].aux[j] != ps[i].aux[j]) r = strf("point %zu: auxiliary value %zu is %llx", i, j, (unsigned long long) p[i].aux[j]);
            for (size_t j = 0; j < ps[i].v.size() && r.empty(); j++) { const c_trace_var_info_struct & x = p[i].vars[j]; const CV & v = ps[i].v[j];
                if (x.value.u != v.u || x.var_name_index != v.name || x.type_name_index != v.type || (x.has_buffer_size != 0) != v.has || (v.has && x.buffer_size != v.bs) || x.size != 8 || x.format != (neg[v.type] ? SIGNED : UNSIGNED))
                    r = strf("point %zu, variable %zu: value %llx name %u type name %u format %d size %u buffer %d %llu", i, j, (unsigned long long) x.value.u, x.var_name_index, x.type_name_index, x.format, x.size, x.has_buffer_size, (unsigned long long) x.buffer_size); }
        }
        free_trace_points(p, ps.size());
        if (!r.empty()) c.fail(strf("round %d: ", round) + r);
    }
    if (extra) { DTrace w; decode(encode(traces()[3]), 0, w); std::string r = impl::cdiff(w, get_trace(d, 0)); if (!r.empty()) c.fail("the other trace changed: " + r); }
    free_db(d);
    c.step(4);
}
static const std::vector<CV> & cvs() {
    static const std::vector<CV> v = {{0, 0, 3, false, 0}, {5, 1, 2, false, 0}, {(uint64_t) -5, 1, 2, false, 0}, {0x1000, 2, 4, true, 16}, {0x8000000000000000ull, 0, 3, true, 0}, {0x7fffffffffffffffull, 2, 0, false, 0}, {1, 3, 3, true, ~0ull}};
    return v;
}
static const std::vector<std::string> CN = {"a", "", "int", "short", "*p"};
SCENARIO(add_points_small) {
    int n = c.choose(3); std::vector<CP> ps;
    for (int i = 0; i < n; i++) {
        CP p; p.st = i ? 0 : 0xfedcba9876543210ull;
        int m = c.choose(n == 1 ? 4 : 3); for (int j = 0; j < m; j++) p.v.push_back(c.pick(cvs()));
        int a = c.choose(3); for (int j = 0; j < a; j++) p.aux.push_back(j ? 0 : 0x8877665544332211ull);
        ps.push_back(p);
    }
    int ex = c.choose(2);
    if (!c.mine()) return;
    c.describe(strf("extra %d:", ex) + cshow(ps)); c.state(mc::hash_str(c.desc));
    add_points(c, ps, CN, ex);
}
SCENARIO(add_points_signs) {    // every placement of negative values over points and types
    int bits = c.choose(64), shape = c.choose(4);
    if (!c.mine()) return;
    std::vector<CP> ps(shape == 3 ? 6 : 3);
    for (int i = 0; i < 6; i++) {
        uint32_t type = shape == 0 ? i % 2 : shape == 1 ? i / 3 : shape == 2 ? 4 - i % 3 : 1 - i % 2;
        ps[shape == 3 ? i : i / 2].v.push_back(CV{(bits >> i & 1) ? ~(uint64_t) i : (uint64_t) i, (uint32_t) i % 5, type, false, 0});
    }
    for (size_t i = 0; i < ps.size(); i++) ps[i].st = i;
    c.describe(cshow(ps)); c.state(mc::hash_str(c.desc)); add_points(c, ps, CN, 0);
}
SCENARIO(add_points_values) {
    std::vector<Bytes> pats = gen::patterns(8); int k = c.choose(4); Bytes v = c.pick(pats);
    if (!c.mine()) return;
    uint64_t x = 0; memcpy(&x, v.data(), 8); std::vector<CP> ps(1); ps[0].st = k == 0 ? x : 1;
    if (k == 1) ps[0].v = {CV{x, 0, 1, false, 0}, CV{~x, 0, 2, false, 0}};
    if (k == 2) ps[0].v = {CV{7, 0, 1, true, x}};
    if (k == 3) ps[0].aux = {x, ~x};
    c.describe(cshow(ps)); c.state(mc::hash_str(c.desc)); add_points(c, ps, CN, 0);
}
SCENARIO(add_points_counts) {
    static const uint64_t N[] = {0, 1, 2, 3, 7, 8, 9, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 1000, 4097};
    int k = c.choose(5); uint64_t n = N[c.choose(20)];
    if (!c.mine()) return;
    std::vector<CP> ps; std::vector<std::string> nm = CN;
    if (k == 0) for (uint64_t i = 0; i < n; i++) ps.push_back(CP{i, {CV{i, 0, (uint32_t) (i % 3), false, 0}}, {i}});
    if (k == 1) { ps.resize(2); ps[0].st = ps[1].st = 1; for (uint64_t i = 0; i < n; i++) ps[i & 1].v.push_back(CV{i * 7, (uint32_t) (i % 5), (uint32_t) (i % 4), i % 2 == 0, i}); }
    if (k == 2) { ps.resize(2); ps[0].st = ps[1].st = 2; for (uint64_t i = 0; i < n; i++) ps[1].aux.push_back(i); }
    if (k == 3) { nm.clear(); for (uint64_t i = 0; i < n; i++) nm.push_back(gen::nm(i)); ps.resize(1); ps[0].st = 0; if (n) ps[0].v = {CV{1, (uint32_t) n - 1, (uint32_t) n / 2, false, 0}}; }
    if (k == 4) { nm.clear(); for (uint64_t i = 0; i < n; i++) nm.push_back(gen::nm(i)); ps.resize(1); ps[0].st = 0; for (uint64_t i = 0; i < n; i++) ps[0].v.push_back(CV{i % 3 ? i : ~i, (uint32_t) i, (uint32_t) (n - 1 - i), false, 0}); }
    if (k >= 3 && n > 1000) return;
    c.describe(strf("kind %d, %llu", k, (unsigned long long) n)); c.state(mc::hash_str(c.desc)); add_points(c, ps, nm, 0);
}
// ---- predicates belong to the caller until they are freed -------------------
static Pred tree(mc::Ctx & c, int depth) {
    static const int K[] = {AND, OR, NOT, GREATER_THAN, GREATER_THAN_OR_EQUAL, LESS_THAN, LESS_THAN_OR_EQUAL, EQUAL, ADD, SUBTRACT, MULTIPLY, DIVIDE, VAR_SIZE, VAR_VALUE, DISTINCT_VARS};
    int k = c.choose(depth ? 19 : c.thorough ? 4 : 2);
    if (k == 0) return ref(0); if (k == 1) return num(1); if (k == 2) return sig(-1); if (k == 3) return flo(0.5);
    int kind = K[k - 4], lo = 2, hi = 2;
    if (kind == AND || kind == OR) { lo = 0; hi = 2; } else if (kind == NOT || kind == VAR_SIZE || kind == VAR_VALUE) lo = hi = 1;
    std::vector<Pred> ch; for (int n = lo + c.choose(hi - lo + 1); n > 0; n--) ch.push_back(tree(c, depth - 1));
    return Pred(kind, ch);
}
static volatile uint64_t touched;
static void walk(const c_predicate & z) { touched += z.kind; for (uint64_t i = 0; i < z.n_children; i++) walk(z.children[i]); }
SCENARIO(free_predicates) {
    Pred p = tree(c, 2);
    if (!c.mine()) return;
    c.describe(show(p)); c.state(mc::hash_str(c.desc));
    size_t before = __sanitizer_get_current_allocated_bytes();
    c_predicate *x = build(p), *y = build(p);
    free_c_predicate(x);
    walk(*y);                   // the other one is still there
    free_c_predicate(y); free_c_predicate(NULL);
    size_t after = __sanitizer_get_current_allocated_bytes();
    c.check(after == before, strf("freeing a predicate leaves %zd bytes", (ssize_t) (after - before)));
    c.step(3);
}
