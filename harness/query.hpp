// query.hpp -- reference semantics of queries, and the bridge to the C API.
#ifndef QUERY_HPP
#define QUERY_HPP
#include <cmath>
#include <boost/multiprecision/cpp_int.hpp>
#include "impl.hpp"
#include "gen.hpp"

namespace q {
using namespace model;
typedef boost::multiprecision::cpp_rational Rat;
typedef boost::multiprecision::cpp_int Int;

// ---- predicates ------------------------------------------------------------
struct Pred {
    int kind; uint64_t var; uint64_t u; int64_t s; double d; std::vector<Pred> ch;
    Pred(int k = NULL_PREDICATE) : kind(k), var(0), u(0), s(0), d(0) {}
    Pred(int k, const std::vector<Pred> & c) : kind(k), var(0), u(0), s(0), d(0), ch(c) {}
};
static inline Pred nul() { return Pred(); }
static inline Pred ref(uint64_t i) { Pred p(VAR_REFERENCE); p.var = i; return p; }
static inline Pred val(uint64_t i) { return Pred(VAR_VALUE, {ref(i)}); }
static inline Pred siz(uint64_t i) { return Pred(VAR_SIZE, {ref(i)}); }
static inline Pred num(uint64_t v) { Pred p(UNSIGNED_VALUE); p.u = v; return p; }
static inline Pred sig(int64_t v) { Pred p(SIGNED_VALUE); p.s = v; return p; }
static inline Pred flo(double v) { Pred p(FLOAT_VALUE); p.d = v; return p; }
static inline Pred op(int k, const Pred & a, const Pred & b) { return Pred(k, {a, b}); }
static inline Pred lnot(const Pred & a) { return Pred(NOT, {a}); }
static inline Pred many(int k, const std::vector<Pred> & c) { return Pred(k, c); }
static inline Pred distinct(uint64_t a, uint64_t b) { return Pred(DISTINCT_VARS, {ref(a), ref(b)}); }

static inline const char *kname(int k) {
    static const char *n[] = {"null", "ref", "size", "value", "distinct", "s", "u", "f", "and", "or", "not", ">", ">=", "<", "<=", "=", "+", "-", "*", "/"};
    switch (k) {
    case NULL_PREDICATE: return n[0]; case VAR_REFERENCE: return n[1]; case VAR_SIZE: return n[2]; case VAR_VALUE: return n[3];
    case DISTINCT_VARS: return n[4]; case SIGNED_VALUE: return n[5]; case UNSIGNED_VALUE: return n[6]; case FLOAT_VALUE: return n[7];
    case AND: return n[8]; case OR: return n[9]; case NOT: return n[10]; case GREATER_THAN: return n[11]; case GREATER_THAN_OR_EQUAL: return n[12];
    case LESS_THAN: return n[13]; case LESS_THAN_OR_EQUAL: return n[14]; case EQUAL: return n[15]; case ADD: return n[16];
    case SUBTRACT: return n[17]; case MULTIPLY: return n[18]; case DIVIDE: return n[19];
    }
    return "?";
}
static inline std::string show(const Pred & p) {
    switch (p.kind) {
    case VAR_REFERENCE: return mc::strf("v%llu", (unsigned long long) p.var);
    case SIGNED_VALUE: return mc::strf("%lld", (long long) p.s);
    case UNSIGNED_VALUE: return mc::strf("%lluu", (unsigned long long) p.u);
    case FLOAT_VALUE: return mc::strf("%.17gf", p.d);
    }
    std::string s = std::string("(") + kname(p.kind);
    for (auto & c : p.ch) s += " " + show(c);
    return s + ")";
}

// ---- values ----------------------------------------------------------------
// exact value; ROUNDED: the implementation (50 digits) can not hold it or
// something it was computed from exactly; INT: computed from integers only
struct Val { bool valid; Rat r; bool rounded, div, isint; Val() : valid(false), rounded(false), div(false), isint(false) {} };
static inline bool representable(const Rat & r) {       // within 160 bits
    Int n = numerator(r), d = denominator(r);
    if (n == 0) return true;
    if (n < 0) n = -n;
    if ((d & (d - 1)) != 0) return false;               // not a dyadic number
    return msb(n) - lsb(n) < 160;
}
static inline Val vint(const Int & i) { Val v; v.valid = true; v.isint = true; v.r = Rat(i); return v; }
static inline Val vdouble(double d) {
    Val v;
    if (std::isnan(d) || std::isinf(d)) { v.valid = true; v.rounded = true; v.div = true; return v; }
    int e; double m = std::frexp(d, &e);
    Int i((int64_t) std::ldexp(m, 53)); e -= 53;
    v.valid = true;
    if (e >= 0) v.r = Rat(Int(i << e)); else v.r = Rat(i, Int(1) << -e);
    return v;
}
enum Tri { NO = 0, YES = 1, OPEN = 2 };
static inline Val eval(const Pred & p, const std::vector<const DVar *> & b) {
    switch (p.kind) {
    case VAR_SIZE: { const DVar & v = *b[p.ch[0].var]; return v.has ? vint(Int(v.bsize)) : Val(); }
    case VAR_VALUE: {
        const DVar & v = *b[p.ch[0].var];
        if (v.format == FU || v.format == FP) return vint(Int(v.u));
        if (v.format == FS) return vint(Int((int64_t) v.u));
        if (v.format == FF) {
            if (v.size == 8) { double d; memcpy(&d, &v.u, 8); return vdouble(d); }
            float f; uint32_t w = (uint32_t) v.u; memcpy(&f, &w, 4); return vdouble(f);
        }
        return Val(); }
    case UNSIGNED_VALUE: return vint(Int(p.u));
    case SIGNED_VALUE: return vint(Int(p.s));
    case FLOAT_VALUE: return vdouble(p.d);
    }
    Val x = eval(p.ch[0], b), y = eval(p.ch[1], b), r;
    if (!x.valid || !y.valid) return r;
    r.valid = true; r.div = true; r.isint = x.isint && y.isint && p.kind != DIVIDE;
    r.rounded = x.rounded || y.rounded || (!r.isint && (!representable(x.r) || !representable(y.r)));
    switch (p.kind) {
    case ADD: r.r = x.r + y.r; break;
    case SUBTRACT: r.r = x.r - y.r; break;
    case MULTIPLY: r.r = x.r * y.r; break;
    case DIVIDE:
        if (y.r == 0) { if (y.rounded) { r.rounded = true; return r; } return Val(); }
        r.r = x.r / y.r;
        break;
    }
    if (!r.isint && !representable(r.r)) r.rounded = true;
    return r;
}
static inline Tri cmp(int k, const Val & x, const Val & y) {
    if (!x.valid || !y.valid) return NO;
    bool leaves = !x.div && !y.div;
    if (x.rounded || y.rounded || (x.isint != y.isint && (!representable(x.r) || !representable(y.r)))) {
        Rat d = x.r - y.r; if (d < 0) d = -d;
        Rat m = abs(x.r) + abs(y.r);
        if (d == 0 ? !leaves : d * Rat(Int("10000000000000000000000000000000000000000")) <= m) return OPEN;
        if ((x.rounded && x.div && x.r == 0) || (y.rounded && y.div && y.r == 0)) return OPEN;
    }
    switch (k) {
    case GREATER_THAN: return x.r > y.r ? YES : NO;
    case GREATER_THAN_OR_EQUAL: return x.r >= y.r ? YES : NO;
    case LESS_THAN: return x.r < y.r ? YES : NO;
    case LESS_THAN_OR_EQUAL: return x.r <= y.r ? YES : NO;
    default: return x.r == y.r ? YES : NO;
    }
}
static inline Tri holds(const Pred & p, const std::vector<const DVar *> & b) {
    switch (p.kind) {
    case NULL_PREDICATE: return YES;
    case AND: { Tri r = YES; for (auto & c : p.ch) { Tri t = holds(c, b); if (t == NO) return NO; if (t == OPEN) r = OPEN; } return r; }
    case OR: { Tri r = NO; for (auto & c : p.ch) { Tri t = holds(c, b); if (t == YES) return YES; if (t == OPEN) r = OPEN; } return r; }
    case NOT: { Tri t = holds(p.ch[0], b); return t == OPEN ? OPEN : t == YES ? NO : YES; }
    case DISTINCT_VARS: return *b[p.ch[0].var] == *b[p.ch[1].var] ? NO : YES;
    default: return cmp(p.kind, eval(p.ch[0], b), eval(p.ch[1], b));
    }
}

// ---- queries ---------------------------------------------------------------
struct Query {
    std::vector<std::vector<uint32_t> > fv; Pred hard; std::vector<Pred> soft;
    uint32_t seed; bool keep; uint64_t mask, st;
    Query() : seed(0), keep(true), mask(0), st(0) {}
};
static inline std::string show(const Query & x) {
    std::string s = "free:";
    for (auto & f : x.fv) { s += " {"; for (uint32_t t : f) s += mc::strf("%u ", t); s += "}"; }
    s += " hard: " + show(x.hard);
    for (auto & p : x.soft) s += " soft: " + show(p);
    if (x.seed) s += mc::strf(" seed %u", x.seed);
    if (!x.keep) s += " unique";
    if (x.mask || x.st) s += mc::strf(" mask %llx st %llx", (unsigned long long) x.mask, (unsigned long long) x.st);
    return s;
}
// one result; variables by content, the type by its index
struct Res {
    uint64_t statement; std::vector<std::string> vars; std::vector<uint64_t> aux;
    bool operator<(const Res & o) const { return std::tie(statement, vars, aux) < std::tie(o.statement, o.vars, o.aux); }
    bool operator==(const Res & o) const { return statement == o.statement && vars == o.vars && aux == o.aux; }
};
static inline std::string show(const Res & r) {
    std::string s = mc::strf("[st=%llx", (unsigned long long) r.statement);
    for (auto & v : r.vars) s += " " + v;
    for (auto a : r.aux) s += mc::strf(" a%llx", (unsigned long long) a);
    return s + "]";
}
static inline std::string show(const std::vector<Res> & r) {
    std::string s = mc::strf("%zu results", r.size());
    for (size_t i = 0; i < r.size() && i < 8; i++) s += " " + show(r[i]);
    return s;
}
// a variable as text: everything the C structure carries
static inline std::string vtext(uint32_t name, uint32_t tname, uint32_t format, uint32_t size, uint64_t u, const Bytes & blob, bool has, uint64_t bs) {
    return mc::strf("n%u/%u/%u/%u/", name, tname, format, size) + (format == FB ? hex(blob) : mc::strf("%llx", (unsigned long long) u)) +
        (has ? mc::strf("/b%llu", (unsigned long long) bs) : "");
}
static inline std::string vtext(const DTrace & t, const DVar & v) {
    return vtext(v.name, t.types[v.type].name, v.format, v.size, v.u, v.blob, v.has, v.bsize);
}
struct Raw { std::vector<Res> r; std::vector<std::vector<uint32_t> > idx; };  // with (name, type) pairs
// results per selected point; OPEN set if some predicate is not decidable
struct Answer { std::vector<std::vector<Res> > pts; std::vector<std::vector<std::vector<uint32_t> > > keys; bool open; };
static inline Answer answer(const DTrace & t, const Query & x) {
    Answer a; a.open = false;
    for (auto & p : t.points) {
        if ((p.statement & x.mask) != x.st) continue;
        std::vector<Res> rs; std::vector<std::vector<uint32_t> > ks; std::vector<int> score;
        size_t n = x.fv.size();
        std::vector<std::vector<const DVar *> > cand(n);
        bool none = false;
        for (size_t i = 0; i < n; i++) {
            for (auto & v : p.vars) if (std::find(x.fv[i].begin(), x.fv[i].end(), v.type) != x.fv[i].end()) cand[i].push_back(&v);
            if (cand[i].empty()) none = true;
        }
        std::vector<size_t> ix(n, 0);
        while (!none) {
            std::vector<const DVar *> b; for (size_t i = 0; i < n; i++) b.push_back(cand[i][ix[i]]);
            Tri h = holds(x.hard, b);
            if (h == OPEN) a.open = true;
            if (h == YES) {
                Res r; r.statement = p.statement; if (n) r.aux = p.aux;
                std::vector<uint32_t> k;
                for (auto v : b) { r.vars.push_back(vtext(t, *v)); k.push_back(v->name); k.push_back(v->type); }
                int s = 0; for (auto & sp : x.soft) { Tri y = holds(sp, b); if (y == OPEN) a.open = true; if (y == YES) s++; }
                rs.push_back(r); ks.push_back(k); score.push_back(s);
            }
            size_t i = 0; while (i < n && ++ix[i] == cand[i].size()) ix[i++] = 0;
            if (i == n) break;
        }
        if (!x.soft.empty() && !rs.empty()) {
            int m = *std::max_element(score.begin(), score.end());
            std::vector<Res> r2; std::vector<std::vector<uint32_t> > k2;
            for (size_t i = 0; i < rs.size(); i++) if (score[i] == m) { r2.push_back(rs[i]); k2.push_back(ks[i]); }
            rs = r2; ks = k2;
        }
        a.pts.push_back(rs); a.keys.push_back(ks);
    }
    return a;
}
static inline bool same(std::vector<Res> a, std::vector<Res> b) { std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); return a == b; }
// Compare actual results (in order) with the answer; "" if they agree.
static inline std::string agree(const Answer & a, const Query & x, const std::vector<Res> & got) {
    if (x.seed) {
        if (a.pts.empty()) return got.empty() ? "" : "no point matches, but there are results: " + show(got);
        Query y = x; y.seed = 0;
        for (size_t i = 0; i < a.pts.size(); i++) {
            Answer one; one.open = false; one.pts.push_back(a.pts[i]); one.keys.push_back(a.keys[i]);
            if (agree(one, y, got).empty()) return "";
        }
        return mc::strf("the results are not those of one of the %zu matching points: ", a.pts.size()) + show(got);
    }
    if (x.keep) {
        size_t o = 0, total = 0;
        for (auto & p : a.pts) total += p.size();
        std::vector<Res> all; for (auto & p : a.pts) all.insert(all.end(), p.begin(), p.end());
        if (got.size() != total) return mc::strf("expected %zu results, got %zu; expected ", total, got.size()) + show(all) + "; got " + show(got);
        for (size_t i = 0; i < a.pts.size(); i++) {
            std::vector<Res> g(got.begin() + o, got.begin() + o + a.pts[i].size()); o += a.pts[i].size();
            if (!same(g, a.pts[i])) return mc::strf("at selected point %zu expected ", i) + show(a.pts[i]) + ", got " + show(g);
        }
        return "";
    }
    // unique: classes (statement, name and type per position) in order of first occurrence
    typedef std::pair<uint64_t, std::vector<uint32_t> > Key;
    size_t o = 0; std::set<Key> seen;
    for (size_t i = 0; i < a.pts.size(); i++) {
        std::map<Key, std::vector<Res> > fresh;
        for (size_t j = 0; j < a.pts[i].size(); j++) {
            Key k(a.pts[i][j].statement, a.keys[i][j]);
            if (!seen.count(k)) fresh[k].push_back(a.pts[i][j]);
        }
        for (auto & f : fresh) seen.insert(f.first);
        size_t n = fresh.size();
        for (size_t j = 0; j < n; j++, o++) {
            if (o >= got.size()) return mc::strf("result %zu (of point %zu) is missing: ", o, i) + show(got);
            bool f = false;
            for (auto it = fresh.begin(); it != fresh.end() && !f; ++it)
                for (auto & r : it->second) if (r == got[o]) { fresh.erase(it); f = true; break; }
            if (!f) return mc::strf("result %zu is not an expected one: ", o) + show(got[o]);
        }
    }
    if (o != got.size()) return mc::strf("expected %zu results, got %zu: ", o, got.size()) + show(got);
    return "";
}

// ---- the C interface -------------------------------------------------------
static inline void fill(c_predicate & c, const Pred & p) {
    memset(&c, 0, sizeof c);
    c.kind = (enum predicate_kind) p.kind; c.n_children = p.ch.size(); c.var_index = p.var;
    c.unsigned_value = p.u; c.signed_value = p.s; c.float_value = p.d;
    c.children = p.ch.empty() ? NULL : (c_predicate *) calloc(p.ch.size(), sizeof(c_predicate));
    for (size_t i = 0; i < p.ch.size(); i++) fill(c.children[i], p.ch[i]);
}
static inline c_predicate *build(const Pred & p) {
    c_predicate *c = (c_predicate *) calloc(1, sizeof *c);
    fill(*c, p);
    return c;
}
struct CQuery {                 // the C form of a query; freed by the destructor
    std::vector<c_free_variable> fv; c_predicate *hard; std::vector<const c_predicate *> soft;
    CQuery(const Query & x) {
        for (auto & f : x.fv) {
            c_free_variable v; v.n_allowed_types = f.size();
            v.allowed_types = (uint32_t *) malloc(f.size() * 4 + 1);
            if (!f.empty()) memcpy(v.allowed_types, f.data(), f.size() * 4);
            fv.push_back(v);
        }
        hard = x.hard.kind == NULL_PREDICATE ? NULL : build(x.hard);
        for (auto & s : x.soft) soft.push_back(build(s));
    }
    ~CQuery() {
        for (auto & f : fv) free(f.allowed_types);
        free_c_predicate(hard);
        for (auto s : soft) free_c_predicate((c_predicate *) s);
    }
};
static inline std::vector<Res> convert(const c_trace_point_struct *r, uint64_t n, bool aux = true) {
    std::vector<Res> out;
    for (uint64_t i = 0; i < n; i++) {
        Res x; x.statement = r[i].statement;
        for (uint32_t j = 0; j < r[i].n_vars; j++) {
            const c_trace_var_info_struct & v = r[i].vars[j];
            x.vars.push_back(vtext(v.var_name_index, v.type_name_index, v.format, v.size, v.value.u,
                                   v.format == BLOB ? Bytes((const char *) v.value.ptr, v.size) : Bytes(), v.has_buffer_size, v.buffer_size));
        }
        if (aux) for (uint32_t j = 0; j < r[i].n_aux; j++) x.aux.push_back(r[i].aux[j]);
        out.push_back(x);
    }
    return out;
}
static inline std::vector<Res> ask(const void *db, uint64_t index, const Query & x) {
    CQuery c(x);
    c_trace_point_struct *r = NULL; uint64_t n = 0;
    query_trace(db, index, c.fv.data(), c.fv.size(), c.hard, c.soft.data(), c.soft.size(), x.seed, x.keep, x.mask, x.st, &r, &n);
    std::vector<Res> out = convert(r, n, !x.fv.empty());
    free_trace_points(r, n);
    return out;
}
// ---- the C++ interface -----------------------------------------------------
static inline Predicate cxx(const Pred & p) {
    Predicates ch; for (auto & c : p.ch) ch.push_back(cxx(c));
    predicate_data d; d.n_children = p.ch.size();
    switch (p.kind) {
    case VAR_REFERENCE: d.var_index = p.var; break;
    case UNSIGNED_VALUE: d.unsigned_value = p.u; break;
    case SIGNED_VALUE: d.signed_value = p.s; break;
    case FLOAT_VALUE: d.float_value = p.d; break;
    }
    return p.kind == NULL_PREDICATE ? Predicate() : Predicate((predicate_kind) p.kind, d, ch);
}
static inline std::vector<Res> ask_cxx(const void *db, uint64_t index, const Query & x) {
    const TraceDB *d = (const TraceDB *) db;
    FreeVariables fv; for (auto & f : x.fv) fv.push_back(FreeVariable(f));
    Predicates soft; for (auto & s : x.soft) soft.push_back(cxx(s));
    TracePoints r = d->query(index, fv, cxx(x.hard), soft, x.seed, x.mask, x.st);
    std::vector<Res> out; const ::Trace & t = d->getTraces()[index];
    for (auto & p : r) {
        Res y; y.statement = p.getStatement();
        model::DPoint dp = impl::dpoint(p);
        for (auto & v : dp.vars) y.vars.push_back(vtext(v.name, t.getTypes()[v.type].getNameIndex(), v.format, v.size, v.u, v.blob, v.has, v.bsize));
        if (!x.fv.empty()) y.aux = dp.aux;
        out.push_back(y);
    }
    return out;
}
// a database holding the encoded traces
struct DB {
    void *db; std::vector<DTrace> t;
    DB() : db(create_db()) {}
    ~DB() { free_db(db); }
    void add(mc::Ctx & c, const model::Trace & m) {
        Bytes b = encode(m); std::string f = c.scratch + "/q.bin"; impl::write_file(f, b);
        DTrace d; if (decode(b, 0, d) != OK) { fprintf(stderr, "query model: bad trace\n"); abort(); }
        if (!add_trace(db, f.c_str(), 5, 0)) c.fail("a well-formed trace is rejected");
        t.push_back(d);
    }
private: DB(const DB &);
};
static inline std::string check(mc::Ctx & c, const DB & d, size_t i, const Query & x, bool both = false) {
    Answer a = answer(d.t[i], x);
    if (a.open) { c.count("undecided_by_rounding"); return ""; }
    c.step();
    std::vector<Res> got = ask(d.db, i, x);
    std::string r = agree(a, x, got);
    if (!r.empty()) return "query_trace: " + r;
    if (both) {
        Query y = x; y.keep = true;
        r = agree(a, y, ask_cxx(d.db, i, y));
        if (!r.empty()) return "TraceDB::query: " + r;
    }
    return "";
}
// Run FN in a process of its own (pristine caches); failures come back.
template <class F> static void isolated(mc::Ctx & c, F fn) {
    int p[2]; if (pipe(p)) abort();
    pid_t k = fork();
    if (k == 0) {
        close(p[0]);
        std::string m;
        try { fn(); } catch (mc::Fail & f) { m = f.msg; } catch (std::exception & e) { m = std::string("unexpected exception: ") + e.what(); }
        if (!m.empty()) { ssize_t z = ::write(p[1], m.data(), std::min<size_t>(m.size(), 60000)); (void) z; }
        _exit(m.empty() ? 0 : 1);
    }
    close(p[1]);
    std::string m; char b[4096]; ssize_t n;
    while ((n = ::read(p[0], b, sizeof b)) > 0) m.append(b, n);
    close(p[0]);
    int st; waitpid(k, &st, 0);
    if (WIFSIGNALED(st)) c.fail(mc::strf("crash: signal %d", WTERMSIG(st)));
    if (WIFEXITED(st) && WEXITSTATUS(st) > 1) c.fail(mc::strf("exit status %d", WEXITSTATUS(st)));
    if (!m.empty()) c.fail(m);
}
} // namespace q
#endif
