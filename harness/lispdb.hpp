// lispdb.hpp -- the Lisp interface of the databases, run by cl.hpp against the
// C library in this process, and its reference semantics.
#ifndef LISPDB_HPP
#define LISPDB_HPP
#include <malloc.h>
#include "cl.hpp"
#define NO_PRODUCT
#include "query_suite.hpp"
#include "lisp_src.inc"            // LISP_SOURCES: name and text of the files of the working tree
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));

namespace ldb {
using namespace model;
using cl::V; using cl::I;

// ---- foreign memory that is alive ----------------------------------------------
static bool g_foreign = false;          // inside a call of the library, or allocating for one
static bool g_count = false;
static long g_live = 0; static long g_ever = 0;
static const volatile void *g_set[1 << 16];
static inline size_t slot(const volatile void *p) { return ((uint64_t) p >> 4) * 0x9E3779B97F4A7C15ull >> 48; }
static void on_malloc(const volatile void *p, size_t) { if (!g_count || !g_foreign || !p) return; size_t i = slot(p); for (int k = 0; k < 64; k++) { const volatile void *& x = g_set[(i + k) & 0xffff]; if (!x) { x = p; g_live++; g_ever++; return; } } }
static void on_free(const volatile void *p) { if (!g_count || !p) return; size_t i = slot(p); for (int k = 0; k < 64; k++) { const volatile void *& x = g_set[(i + k) & 0xffff]; if (x == p) { x = NULL; g_live--; return; } } }
static inline void counting(bool on) { g_count = false; memset((void *) g_set, 0, sizeof g_set); g_live = g_ever = 0; g_count = on; }

static std::vector<std::string> & notes() { static std::vector<std::string> n; return n; }
static void (*before_load)() = NULL;
static inline void boot() {
    static bool done = false; if (done) return; done = true;
    cl::setup_forms(); cl::setup_funs(); if (before_load) before_load();
    for (auto & s : LISP_SOURCES) { std::string *t = new std::string(s.text, s.size); cl::load_text(*t, notes()); }
    cl::state().foreign = [](bool in) { g_foreign = in; };
    __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
    cl::keep_all();
}
// Runs F; Unsupported leaves the case without a verdict.
template <class F> static void judged(mc::Ctx & c, F f) {
    boot(); cl::state().steps = 0; cl::state().depth = 0; cl::state().values.clear(); cl::state().random = nullptr;
    std::string gave_up;
    try { f(); }
    catch (cl::Unsupported & u) { gave_up = u.what; }
    catch (cl::LispError & e) { std::string m = e.msg; cl::release(); c.fail("the Lisp code signals an error: " + m); }
    catch (cl::Return &) { gave_up = "non-local exit"; } catch (cl::Throw &) { gave_up = "throw"; } catch (cl::Finish &) { gave_up = "finish"; }
    catch (mc::Fail &) { cl::release(); throw; }
    g_count = false; cl::state().blocks.clear();
    cl::release();
    if (!gave_up.empty()) { c.count("not_judged: " + gave_up); if (getenv("CL_TRACE")) fprintf(stderr, "not judged: %s\n", gave_up.c_str()); }
}
// ---- calls -----------------------------------------------------------------------
static inline V fn(const char *n) { V f = cl::S(cl::sym(n))->fn; if (!f) cl::unsupported(std::string("function ") + n); return f; }
static inline V call(const char *n, const cl::Args & a) { return cl::apply(fn(n), a); }
static inline V kw(const char *n) { return cl::key(n); }
static inline V make_db(const char *cls = "binary-trace-db") { return call("make-instance", cl::Args{cl::sym(cls)}); }
static inline void *pointer(V db) { V p = cl::slot_value(db, cl::sym("db-pointer")); return p->t == cl::PTR ? (void *) ((cl::Ptr *) p)->p : NULL; }
static inline bool signals(const std::function<void()> & f) { try { f(); } catch (cl::LispError &) { return true; } return false; }

// ---- expected content --------------------------------------------------------------
struct Id { I c; long f; };
static inline Id id_of(uint64_t s) { Id r; if (s >> 63) { r.c = s & ((1ull << 40) - 1); r.f = (s >> 40) & ((1 << 23) - 1); } else { r.c = s; r.f = -1; } return r; }
static inline std::string ftext(double d, bool single) { return std::isnan(d) ? "nan" : mc::strf("%a%c", d, single ? 's' : 'd'); }
static inline std::string value_text(const DVar & v) {
    switch (v.format) {
    case FU: case FP: return mc::strf("%llu", (unsigned long long) v.u);
    case FS: return mc::strf("%lld", (long long) v.u);
    case FF: if (v.size == 4) { float f; uint32_t w = (uint32_t) v.u; memcpy(&f, &w, 4); return ftext(f, true); } else { double d; memcpy(&d, &v.u, 8); return ftext(d, false); }
    }
    return "\"" + v.blob + "\"";
}
static inline std::string var_text(const DTrace & t, const DVar & v) { return t.names[v.name] + ":" + t.names[t.types[v.type].name] + "=" + value_text(v) + (v.has ? mc::strf("/%llu", (unsigned long long) v.bsize) : ""); }
struct LPoint {
    I c; long f; std::vector<std::string> vars, keys; std::vector<uint64_t> aux;
    bool same(const LPoint & o) const { return c == o.c && f == o.f && vars == o.vars && aux == o.aux; }
    std::string cls() const { std::string s = cl::itoa(c) + mc::strf("/%ld", f); for (auto & k : keys) s += "|" + k; return s; }
};
static inline std::string show(const LPoint & p) { std::string s = "[:c " + cl::itoa(p.c) + (p.f >= 0 ? mc::strf(" :f %ld", p.f) : ""); for (auto & v : p.vars) s += " " + v; for (auto a : p.aux) s += mc::strf(" a%llx", (unsigned long long) a); return s + "]"; }
static inline std::string show(const std::vector<LPoint> & p) { std::string s = mc::strf("%zu:", p.size()); for (size_t i = 0; i < p.size() && i < 8; i++) s += " " + show(p[i]); return s; }
static inline LPoint lpoint(const DTrace & t, const DPoint & p) {
    LPoint r; Id i = id_of(p.statement); r.c = i.c; r.f = i.f; r.aux = p.aux;
    for (auto & v : p.vars) { r.vars.push_back(var_text(t, v)); r.keys.push_back(t.names[v.name] + ":" + t.names[t.types[v.type].name]); }
    return r;
}
// ---- Lisp values ---------------------------------------------------------------------
static inline V assoc(V al, const char *k) { for (V x = al; cl::consp(x); x = cl::cdr(x)) if (cl::consp(cl::car(x)) && cl::car(cl::car(x)) == kw(k)) return cl::cdr(cl::car(x)); return cl::nil(); }
static inline std::string lisp_value(V v) {
    if (v->t == cl::INT) return cl::itoa(cl::in(v));
    if (v->t == cl::DBL) return ftext(((cl::Dbl *) v)->d, ((cl::Dbl *) v)->single);
    return cl::show(v);
}
static inline LPoint from_lisp(V p) {
    LPoint r; V c = assoc(p, "c"), f = assoc(p, "f"); if (c->t != cl::INT) throw cl::LispError{"trace point without :c: " + cl::show(p), cl::nil()}; r.c = cl::in(c); r.f = f->t == cl::INT ? (long) cl::in(f) : -1;
    for (V x : cl::seq(assoc(p, "scopes"))) {
        cl::Args e = cl::seq(x); if (e.size() < 3 || e[0]->t != cl::STR || e[1]->t != cl::STR) throw cl::LispError{"odd variable in a trace point: " + cl::show(x), cl::nil()};
        std::string k = ((cl::Str *) e[0])->s + ":" + ((cl::Str *) e[1])->s; r.keys.push_back(k);
        r.vars.push_back(k + "=" + lisp_value(e[2]) + (e.size() > 3 && cl::yes(e[3]) ? "/" + lisp_value(e[3]) : ""));
    }
    for (V x : cl::seq(assoc(p, "aux"))) r.aux.push_back((uint64_t) cl::in(x));
    return r;
}
static inline std::vector<LPoint> points_of(V l) { std::vector<LPoint> r; for (V p : cl::items(l)) r.push_back(from_lisp(p)); return r; }
static inline std::string diff(const std::vector<LPoint> & w, const std::vector<LPoint> & g) {
    if (w.size() != g.size()) return mc::strf("%zu points instead of %zu: ", g.size(), w.size()) + show(g);
    for (size_t i = 0; i < w.size(); i++) if (!w[i].same(g[i])) return mc::strf("point %zu is ", i) + show(g[i]) + " instead of " + show(w[i]);
    return "";
}
// ---- queries ---------------------------------------------------------------------------
struct LQuery {
    std::vector<std::vector<uint32_t> > fv; q::Pred hard; std::vector<q::Pred> soft; long file; int filter; bool pick, distinct; I rnd;   // rnd: what RANDOM returns, from the end if negative
    LQuery() : file(-1), filter(0), pick(false), distinct(false), rnd(0) {}
};
static inline V vname(size_t i) { static const char *N[] = {"va", "vb", "vc", "vd", "ve", "vf", "vg", "vh"}; return cl::sym(N[i]); }
// EQ: which of the two names of equality to use
static inline V sexp(const q::Pred & p, int eq = 0) {
    const char *n = NULL;
    switch (p.kind) {
    case NULL_PREDICATE: return cl::nil();
    case VAR_REFERENCE: return vname(p.var);
    case UNSIGNED_VALUE: return cl::num(p.u);
    case SIGNED_VALUE: return cl::num(p.s);
    case FLOAT_VALUE: return new cl::Dbl(p.d, eq && (double) (float) p.d == p.d);
    case VAR_SIZE: n = "v/size"; break; case VAR_VALUE: n = "v/value"; break; case DISTINCT_VARS: n = "distinct-vars"; break;
    case AND: n = "and"; break; case OR: n = "or"; break; case NOT: n = "not"; break;
    case GREATER_THAN: n = ">"; break; case GREATER_THAN_OR_EQUAL: n = ">="; break; case LESS_THAN: n = "<"; break; case LESS_THAN_OR_EQUAL: n = "<="; break;
    case EQUAL: n = eq ? "equal" : "="; break; case ADD: n = "+"; break; case SUBTRACT: n = "-"; break; case MULTIPLY: n = "*"; break; case DIVIDE: n = "/"; break;
    }
    cl::Args a; a.push_back(cl::sym(n)); for (auto & ch : p.ch) a.push_back(sexp(ch, eq)); return cl::list(a);
}
struct Filter { const char *lisp; std::function<bool(const DTrace &, const DPoint &, const std::vector<const DVar *> &)> f; };
static inline const std::vector<Filter> & filters() {
    static std::vector<Filter> v;
    if (v.empty()) {
        v.push_back({NULL, [](const DTrace &, const DPoint &, const std::vector<const DVar *> &) { return true; }});
        v.push_back({"(lambda (f c &rest vars) t)", [](const DTrace &, const DPoint &, const std::vector<const DVar *> &) { return true; }});
        v.push_back({"(lambda (f c &rest vars) (and (= (mod c 2) 1) (null f)))", [](const DTrace &, const DPoint & p, const std::vector<const DVar *> &) { Id i = id_of(p.statement); return i.c % 2 == 1 && i.f < 0; }});
        v.push_back({"(lambda (f c &rest vars) (eql f 3))", [](const DTrace &, const DPoint & p, const std::vector<const DVar *> &) { return id_of(p.statement).f == 3; }});
        v.push_back({"(lambda (f c &rest vars) (every (lambda (v) (and (integerp (elt v 2)) (< (elt v 2) 5))) vars))", [](const DTrace &, const DPoint &, const std::vector<const DVar *> & b) { for (auto x : b) if (x->format == FF || x->format == FB || (x->format == FS ? (int64_t) x->u >= 5 : x->u >= 5)) return false; return true; }});
        v.push_back({"(lambda (f c &rest vars) (and vars (string= (elt (first vars) 0) \"b\")))", [](const DTrace & t, const DPoint &, const std::vector<const DVar *> & b) { return !b.empty() && t.names[b[0]->name] == "b"; }});
        v.push_back({"(lambda (f c &rest vars) nil)", [](const DTrace &, const DPoint &, const std::vector<const DVar *> &) { return false; }});
    }
    return v;
}
static inline std::string show(const DTrace & t, const LQuery & x) {
    q::Query y; y.fv = x.fv; y.hard = x.hard; y.soft = x.soft; (void) t;
    return q::show(y) + (x.file >= 0 ? mc::strf(" :file-id %ld", x.file) : "") + (x.pick ? " :pick, random gives " + cl::itoa(x.rnd) : "") + (x.filter ? std::string(" :filter ") + filters()[x.filter].lisp : "");
}
// "" if GOT is an answer to X on T; OPEN if that can not be decided
static inline std::string judge(const DTrace & t, const LQuery & x, const std::vector<LPoint> & got, bool & open) {
    open = false; std::vector<std::vector<LPoint> > pts;
    for (auto & p : t.points) {
        if (x.file >= 0 && id_of(p.statement).f != x.file) continue;
        size_t n = x.fv.size(); std::vector<std::vector<const DVar *> > cand(n); bool none = false;
        for (size_t i = 0; i < n; i++) { for (auto & v : p.vars) if (std::find(x.fv[i].begin(), x.fv[i].end(), v.type) != x.fv[i].end()) cand[i].push_back(&v); if (cand[i].empty()) none = true; }
        std::vector<size_t> ix(n, 0); std::vector<LPoint> rs; std::vector<int> score; std::vector<bool> pass;
        while (!none) {
            std::vector<const DVar *> b; for (size_t i = 0; i < n; i++) b.push_back(cand[i][ix[i]]);
            q::Tri h = q::holds(x.hard, b); if (h == q::OPEN) open = true;
            if (x.distinct) for (size_t i = 0; i < n; i++) for (size_t j = 0; j < i; j++) if (b[i] == b[j]) h = q::NO;
            if (h == q::YES) {
                int s = 0; for (auto & sp : x.soft) { q::Tri y = q::holds(sp, b); if (y == q::OPEN) open = true; s += y == q::YES; }
                LPoint r; Id i = id_of(p.statement); r.c = i.c; r.f = i.f; if (n) r.aux = p.aux;
                for (auto v : b) { r.vars.push_back(var_text(t, *v)); r.keys.push_back(t.names[v->name] + ":" + t.names[t.types[v->type].name]); }
                rs.push_back(r); score.push_back(s); pass.push_back(filters()[x.filter].f(t, p, b));
            }
            size_t i = 0; while (i < n && ++ix[i] == cand[i].size()) ix[i++] = 0;
            if (i == n) break;
        }
        std::vector<LPoint> out; int m = 0; for (int s : score) m = std::max(m, s);
        for (size_t i = 0; i < rs.size(); i++) if (score[i] == m && pass[i]) out.push_back(rs[i]);
        pts.push_back(out);
    }
    if (open) return "";
    auto unique = [&](const std::vector<std::vector<LPoint> > & ps) -> std::string {
        std::map<std::string, std::vector<const LPoint *> > cls; for (auto & v : ps) for (auto & r : v) cls[r.cls()].push_back(&r);
        std::set<std::string> seen;
        for (auto & g : got) {
            auto it = cls.find(g.cls()); if (it == cls.end()) return "a result that does not qualify: " + show(g);
            bool f = false; for (auto r : it->second) f |= x.fv.empty() ? r->c == g.c && r->f == g.f : r->same(g);
            if (!f) return "a result with other content: " + show(g);
            if (!seen.insert(g.cls()).second) return "the same bindings twice: " + show(g);
        }
        if (seen.size() != cls.size()) { for (auto & k : cls) if (!seen.count(k.first)) return mc::strf("%zu of %zu results; missing: ", seen.size(), cls.size()) + show(*k.second[0]); }
        return "";
    };
    if (!x.pick) return unique(pts);
    if (pts.empty()) return got.empty() ? "" : "no point matches, but there are results: " + show(got);
    for (auto & p : pts) if (unique({p}).empty()) return "";
    return mc::strf("not the results of one of the %zu matching points: ", pts.size()) + show(got);
}
static inline V names_of(const LQuery & x) { cl::Args a; for (size_t i = 0; i < x.fv.size(); i++) a.push_back(vname(i)); return cl::list(a); }
static inline V types_of(const DTrace & t, const LQuery & x) { cl::Args a; for (auto & f : x.fv) { cl::Args y; for (uint32_t k : f) y.push_back(cl::str(t.names[t.types[k].name])); a.push_back(cl::list(y)); } return cl::list(a); }
static inline V ask(V db, I index, const DTrace & t, const LQuery & x, int eq = 0) {
    cl::Args a = {db, cl::num(index), names_of(x), types_of(t, x)};
    if (x.hard.kind != NULL_PREDICATE) { a.push_back(kw("predicate")); a.push_back(sexp(x.hard, eq)); }
    if (!x.soft.empty()) { cl::Args s; for (auto & p : x.soft) s.push_back(sexp(p, eq)); a.push_back(kw("soft-predicates")); a.push_back(cl::list(s)); }
    if (x.file >= 0) { a.push_back(kw("file-id")); a.push_back(cl::num(x.file)); }
    if (x.pick) { a.push_back(kw("pick")); a.push_back(cl::tee()); }
    if (x.filter) { a.push_back(kw("filter")); a.push_back(cl::run(filters()[x.filter].lisp)); }
    I r = x.rnd; cl::state().random = [r](I n) -> V { return cl::num(r < 0 ? n + r : r < n ? r : r % n); };
    return call("query-trace", a);
}
// ---- helpers of the checks
static inline uint64_t sid(uint64_t f, uint64_t s) { return 1ull << 63 | f << 40 | s; }
static inline V meta(I k) { return cl::list(cl::Args{cl::cons(kw("input"), cl::num(k))}); }
static inline std::vector<LPoint> want(const DTrace & d, long file = -1) { std::vector<LPoint> r; for (auto & p : d.points) { LPoint l = lpoint(d, p); if (file < 0 || l.f == file) r.push_back(l); } return r; }
static inline V lisp_point(const model::DPoint & p, const DTrace & d) {
    cl::Args sc; for (auto & v : p.vars) { cl::Args e = {cl::str(d.names[v.name]), cl::str(d.names[d.types[v.type].name]), cl::num(v.u)}; if (v.has) e.push_back(cl::num(v.bsize)); sc.push_back(cl::vec(e)); }
    Id i = id_of(p.statement);
    return cl::list(cl::Args{cl::cons(kw("c"), cl::num(i.c)), cl::cons(kw("f"), i.f < 0 ? cl::nil() : cl::num(i.f)), cl::cons(kw("scopes"), cl::list(sc))});
}
// every block allocated from Lisp since the last look has been released
static inline bool released(std::string & why) {
    for (uint64_t p : cl::state().blocks) if (!__asan_address_is_poisoned((void *) p)) { why = "foreign memory allocated for the call is not released"; return false; }
    return true;
}
} // namespace ldb
#endif
