// C20: the Lisp declarations agree with the C interface.
//
// lisp_ffi.inc holds what binary-trace-db.lisp declares (read by bin/lisp.py
// and laid out by the rules of CFFI).  Every declared field, enumerator and
// function is compared with the compiled C side, and whole queries and traces
// are marshalled the way Lisp does it (declared offsets, strides, enumerators
// and argument lists) and checked against the reference model.
#define NO_PRODUCT
#include "query_suite.hpp"
#include <cstddef>
#include <type_traits>
using namespace q;

struct LMember { std::string name; long long value; };
struct LEnum { std::string name; int width; std::vector<LMember> members; };
struct LField { std::string name; char kind; int width; int off; int count; std::string type; };
struct LStruct { std::string name, cls; int size; std::vector<LField> fields; };
struct LArg { std::string name; char kind; int width; };
struct LFun { std::string name; LArg ret; std::vector<LArg> args; };
#include "lisp_ffi.inc"

static std::string norm(std::string s) { for (auto & ch : s) ch = ch == '-' ? '_' : tolower(ch); return s; }

// ---- the C side -------------------------------------------------------------
struct CField { std::string name; char kind; int width; int off; };
struct CStruct { std::string name, lisp; int size; std::vector<CField> fields; };
template <class T> static char kind_of() {
    return std::is_same<T, VarValue>::value ? 'x' : std::is_floating_point<T>::value ? 'f' : std::is_enum<T>::value ? 'e' : std::is_pointer<T>::value ? 'p' :
        std::is_void<T>::value ? 'v' : std::is_signed<T>::value ? 'i' : 'u';
}
#define F(S, M) {#M, kind_of<decltype(S::M)>(), (int) sizeof(S::M), (int) offsetof(S, M)}
static const std::vector<CStruct> C_STRUCTS = {
    {"c_trace_var_info_struct", "var_info", sizeof(c_trace_var_info_struct),
     {F(c_trace_var_info_struct, value), F(c_trace_var_info_struct, format), F(c_trace_var_info_struct, var_name_index), F(c_trace_var_info_struct, type_name_index),
      F(c_trace_var_info_struct, size), F(c_trace_var_info_struct, buffer_size), F(c_trace_var_info_struct, has_buffer_size)}},
    {"c_trace_point_struct", "trace_point", sizeof(c_trace_point_struct),
     {F(c_trace_point_struct, statement), F(c_trace_point_struct, vars), F(c_trace_point_struct, n_vars), F(c_trace_point_struct, aux), F(c_trace_point_struct, n_aux)}},
    {"c_predicate", "c_predicate", sizeof(c_predicate),
     {F(c_predicate, kind), F(c_predicate, n_children), F(c_predicate, var_index), F(c_predicate, unsigned_value), F(c_predicate, signed_value), F(c_predicate, float_value), F(c_predicate, children)}},
    {"c_free_variable", "c_free_variable", sizeof(c_free_variable), {F(c_free_variable, n_allowed_types), F(c_free_variable, allowed_types)}},
};
struct CEnum { std::string lisp; int width; std::vector<LMember> members; };
#define E(X) {norm(#X), (long long) X}
static const std::vector<CEnum> C_ENUMS = {
    {"type_format", sizeof(type_format), {E(UNSIGNED), E(SIGNED), E(FLOAT), E(POINTER), E(BLOB), E(INVALID_FORMAT)}},
    {"predicate_kind", sizeof(enum predicate_kind),
     {E(NULL_PREDICATE), E(VAR_REFERENCE), E(VAR_SIZE), E(VAR_VALUE), E(DISTINCT_VARS), E(SIGNED_VALUE), E(UNSIGNED_VALUE), E(FLOAT_VALUE), E(AND), E(OR), E(NOT),
      E(GREATER_THAN), E(GREATER_THAN_OR_EQUAL), E(LESS_THAN), E(LESS_THAN_OR_EQUAL), E(EQUAL), E(ADD), E(SUBTRACT), E(MULTIPLY), E(DIVIDE)}},
};
struct CArg { char kind; int width; };
struct CFun { std::string name; void *fn; CArg ret; std::vector<CArg> args; std::vector<std::vector<std::string> > roles; };
template <class T> struct Width { static int v() { return sizeof(T); } };
template <> struct Width<void> { static int v() { return 0; } };
template <class R, class... A> static CFun fun(const char *n, R (*f)(A...), const std::vector<std::vector<std::string> > & roles) {
    CFun c; c.name = n; c.fn = (void *) f; c.ret = CArg{kind_of<R>(), Width<R>::v()}; c.args = {CArg{kind_of<A>(), (int) sizeof(A)}...}; c.roles = roles; return c;
}
typedef std::vector<std::vector<std::string> > Roles;
#define FN(X, ...) fun(#X, &X, __VA_ARGS__)
static const std::vector<std::string> DB_ = {"db", "db_ptr"}, TR_ = {"trace", "trace_ptr"}, FILE_ = {"filename"}, TO_ = {"timeout", "timeout_seconds"}, MAX_ = {"max_trace_points", "max_points"};
static const std::vector<CFun> C_FUNS = {
    FN(read_trace, Roles{FILE_, TO_, MAX_}), FN(trace_size, Roles{TR_}), FN(get_points, Roles{TR_}), FN(n_types, Roles{TR_}), FN(get_types, Roles{TR_}),
    FN(n_names, Roles{TR_}), FN(get_names, Roles{TR_}), FN(free_trace, Roles{TR_}), FN(free_trace_points, Roles{{"points"}, {"n_points"}}), FN(create_db, Roles{}),
    FN(add_trace, Roles{DB_, FILE_, TO_, MAX_}), FN(add_trace_points, Roles{DB_, {"points"}, {"n_points"}, {"names", "c_names"}, {"n_names"}}),
    FN(get_trace, Roles{DB_, {"index"}}), FN(n_traces, Roles{DB_}), FN(serialize_trace_db, Roles{DB_}), FN(deserialize_trace_db, Roles{{"text"}}), FN(free_db, Roles{DB_}),
    FN(query_trace, Roles{DB_, {"index"}, {"variables"}, {"n_variables"}, {"predicate", "hard_predicate"}, {"soft_predicates"}, {"n_soft_predicates"}, {"seed"},
                          {"keep_duplicate_bindings"}, {"statement_mask"}, {"statement"}, {"results_out"}, {"n_results", "n_results_out"}}),
    FN(free_c_predicate, Roles{{"predicate", "c_predicate"}}),
};

// ---- lookups ----------------------------------------------------------------
static const LStruct *lstruct(const CStruct & s) {
    for (auto & l : L_STRUCTS) if (norm(l.name) == s.lisp || norm(l.name) == s.name || norm(l.cls) == s.name) return &l;
    for (auto & l : L_STRUCTS) {        // renamed: the one with the same field names
        size_t n = 0; for (auto & f : l.fields) for (auto & g : s.fields) n += norm(f.name) == g.name;
        if (n == s.fields.size()) return &l;
    }
    return NULL;
}
static const LEnum *lenum(const CEnum & e) {
    for (auto & l : L_ENUMS) if (norm(l.name) == e.lisp) return &l;
    for (auto & l : L_ENUMS) {
        size_t n = 0; for (auto & f : l.members) for (auto & g : e.members) n += norm(f.name) == g.name;
        if (n == e.members.size()) return &l;
    }
    return NULL;
}
static const LFun *lfun(const std::string & n) { for (auto & f : L_FUNS) if (f.name == n) return &f; return NULL; }
// the Lisp field of a C field: by name, else (renamed) the one at its place
static const LField *lfield(const LStruct & l, const CStruct & s, const CField & f) {
    for (auto & x : l.fields) if (norm(x.name) == f.name) return &x;
    for (auto & x : l.fields) {
        bool known = false; for (auto & g : s.fields) known = known || norm(x.name) == g.name;
        if (!known && x.off == f.off) return &x;
    }
    return NULL;
}

// ---- fields: what one side stores the other side reads ------------------------
typedef __int128 I128;
static std::string show128(I128 v) { return strf("%s%llu", v < 0 ? "-" : "", (unsigned long long) (v < 0 ? -v : v)); }
static I128 get(const unsigned char *p, int w, bool sgn) {
    uint64_t v = 0; memcpy(&v, p, std::min(w, 8));
    if (sgn) { int sh = 64 - 8 * w; return ((int64_t) (v << sh)) >> sh; }
    return v;
}
static void put(unsigned char *p, int w, I128 v) { uint64_t x = (uint64_t) v; memcpy(p, &x, std::min(w, 8)); }
static bool sgn(char k) { return k == 'i'; }

SCENARIO(fields) {
    const CStruct & s = c.pick(C_STRUCTS);
    const LStruct *l = lstruct(s);
    int fi = c.choose(s.fields.size()); const CField & f = s.fields[fi];
    const LField *g = l ? lfield(*l, s, f) : NULL;
    int ix = c.choose(3), bg = c.choose(2), dir = c.choose(2);
    std::vector<uint64_t> vals; for (auto & b : gen::patterns(f.width)) { uint64_t v = 0; memcpy(&v, b.data(), b.size()); vals.push_back(v); }
    int vi = c.choose(vals.size());
    if (!c.mine()) return;
    c.describe(s.name + "." + f.name + strf(" [%d] %s value %llx", ix, dir ? "C to Lisp" : "Lisp to C", (unsigned long long) vals[vi]));
    c.state(mc::hash_str(c.desc));
    if (!l) { c.count("not_declared"); return; }
    if (!g) c.fail("Lisp declares " + l->name + " without a field at the place of " + f.name);
    c.check(l->size == s.size, strf("array elements are %d bytes apart in Lisp, %d in C", l->size, s.size));
    c.check(g->width == f.width, strf("field is %d bytes wide in Lisp, %d in C", g->width, f.width));
    if (f.kind != 'x') {
        c.check((g->kind == 'f') == (f.kind == 'f'), "floating point on one side only");
        c.check((g->kind == 'p') == (f.kind == 'p') || f.width == 8, "pointer on one side only");
    }
    bool cs = sgn(f.kind), ls = sgn(g->kind);
    if (f.kind == 'x' || f.kind == 'f' || f.kind == 'p' || f.kind == 'e') cs = ls = false;
    std::vector<unsigned char> m(std::max(s.size, l->size) * 4 + 64, bg ? 0xff : 0), was = m;
    int co = ix * s.size + f.off, lo = ix * l->size + g->off, woff;
    I128 v, r;
    if (dir) { v = get((unsigned char *) &vals[vi], f.width, cs); put(&m[co], f.width, v); r = get(&m[lo], g->width, ls); woff = lo; }
    else { v = get((unsigned char *) &vals[vi], g->width, ls); put(&m[lo], g->width, v); r = get(&m[co], f.width, cs); woff = lo; }
    c.check(v == r, "stored " + show128(v) + ", the other side reads " + show128(r));
    for (int k = 0; k < 3; k++) for (auto & h : l->fields) {    // no other field changes
        int o = k * l->size + h.off;
        if (o == woff) continue;
        c.check(!memcmp(&m[o], &was[o], h.width * h.count), "also changes " + h.name);
    }
    c.step();
}
SCENARIO(lisp_fields) {         // nothing declared in Lisp that C does not have
    const CStruct & s = c.pick(C_STRUCTS);
    if (!c.mine()) return;
    const LStruct *l = lstruct(s);
    c.describe(s.name); c.state(mc::hash_str(c.desc));
    if (!l) { c.count("not_declared"); return; }
    for (auto & x : l->fields) {
        bool ok = false;
        for (auto & f : s.fields) ok = ok || (f.off == x.off && f.width == x.width * x.count && lfield(*l, s, f) == &x);
        c.check(ok, "Lisp field " + x.name + strf(" (offset %d, width %d) is no field of ", x.off, x.width) + s.name);
        c.step();
    }
    // CFFI's own order of the fields is not observable, their places are
}
SCENARIO(enumerators) {
    const CEnum & e = c.pick(C_ENUMS); const LMember & m = c.pick(e.members);
    if (!c.mine()) return;
    const LEnum *l = lenum(e);
    c.describe(e.lisp + " " + m.name); c.state(mc::hash_str(c.desc)); c.step();
    if (!l) { c.count("not_declared"); return; }
    c.check(l->width == e.width, strf("enumeration is %d bytes in Lisp, %d in C", l->width, e.width));
    for (auto & x : l->members) if (norm(x.name) == m.name) { c.check(x.value == m.value, strf("%lld in Lisp, %lld in C", x.value, m.value)); return; }
    // not declared under this name: nothing else may stand for its value
    for (auto & x : l->members) {
        bool known = false; for (auto & y : e.members) known = known || norm(x.name) == y.name;
        c.check(x.value != m.value || !known, "Lisp calls this value " + x.name);
    }
    c.count("enumerator_under_another_name");
}
SCENARIO(lisp_enumerators) {
    const CEnum & e = c.pick(C_ENUMS);
    if (!c.mine()) return;
    const LEnum *l = lenum(e);
    c.describe(e.lisp); c.state(mc::hash_str(c.desc)); c.step();
    if (!l) { c.count("not_declared"); return; }
    std::map<long long, std::string> seen;
    for (auto & x : l->members) {
        bool ok = false; for (auto & y : e.members) ok = ok || y.value == x.value;
        c.check(ok, strf("Lisp declares %s = %lld, which C does not have", x.name.c_str(), x.value));
        if (seen.count(x.value)) c.fail("two names for one value: " + x.name + ", " + seen[x.value]);
        seen[x.value] = x.name;
    }
}
SCENARIO(signatures) {
    const CFun & f = c.pick(C_FUNS);
    if (!c.mine()) return;
    c.describe(f.name); c.state(mc::hash_str(c.desc)); c.step();
    for (auto & l : L_FUNS) {
        if (l.name != f.name) continue;
        c.check(l.args.size() == f.args.size(), strf("%zu arguments in Lisp, %zu in C", l.args.size(), f.args.size()));
        for (size_t i = 0; i < l.args.size(); i++) {
            c.check(l.args[i].width == f.args[i].width, strf("argument %zu (%s): %d bytes in Lisp, %d in C", i, l.args[i].name.c_str(), l.args[i].width, f.args[i].width));
            c.check((l.args[i].kind == 'f') == (f.args[i].kind == 'f'), strf("argument %zu (%s): floating point on one side only", i, l.args[i].name.c_str()));
        }
        if (l.ret.kind != 'v') {
            c.check(l.ret.width == f.ret.width, strf("result: %d bytes in Lisp, %d in C", l.ret.width, f.ret.width));
            c.check((l.ret.kind == 'f') == (f.ret.kind == 'f'), "result: floating point on one side only");
        }
    }
}

// ---- the Lisp way of calling --------------------------------------------------
struct Skip {};
static uint64_t call(const std::string & n, const std::vector<uint64_t> & byrole) {
    const CFun *f = NULL; for (auto & x : C_FUNS) if (x.name == n) f = &x;
    const LFun *l = lfun(n);
    if (!l) throw Skip();
    std::vector<int> role;      // role of each Lisp argument
    for (auto & a : l->args)
        for (size_t r = 0; r < f->roles.size(); r++)
            if (std::find(f->roles[r].begin(), f->roles[r].end(), norm(a.name)) != f->roles[r].end()) role.push_back(r);
    std::set<int> u(role.begin(), role.end());
    if (role.size() != l->args.size() || u.size() != role.size()) { role.clear(); for (size_t i = 0; i < l->args.size(); i++) role.push_back(i); }  // renamed
    uint64_t a[16]; for (int i = 0; i < 16; i++) a[i] = 0xdeadbeefdeadbeefull;
    for (size_t i = 0; i < role.size() && i < 16; i++) {
        uint64_t v = role[i] < (int) byrole.size() ? byrole[role[i]] : 0;
        int w = l->args[i].width;
        if (w < 4) v &= (1ull << (8 * w)) - 1;                                      // promoted to int by the caller
        else if (w < 8) v = (v & 0xffffffffull) | 0xa5a5a5a500000000ull;            // the rest of the register is anything
        a[i] = v;
    }
    typedef uint64_t (*G)(uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t);
    uint64_t r = ((G) f->fn)(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13]);
    int w = l->ret.width;
    if (l->ret.kind == 'v') return 0;
    if (w < 8) r &= (1ull << (8 * w)) - 1;
    return r;
}
static uint64_t P(const void *p) { return (uint64_t) (uintptr_t) p; }
static void *V(uint64_t p) { return (void *) (uintptr_t) p; }
// a structure seen from Lisp
struct LS {
    const CStruct *s; const LStruct *l;
    LS(const char *n) : s(NULL) { for (auto & x : C_STRUCTS) if (x.name == n) s = &x; l = lstruct(*s); if (!l) throw Skip(); }
    const LField & f(const char *n) const { for (auto & x : s->fields) if (x.name == n) { const LField *g = lfield(*l, *s, x); if (g) return *g; } throw Skip(); }
    uint64_t get(const void *base, uint64_t i, const char *n) const { const LField & x = f(n); return (uint64_t) ::get((const unsigned char *) base + i * l->size + x.off, x.width, false); }
    void put(void *base, uint64_t i, const char *n, uint64_t v) const { const LField & x = f(n); ::put((unsigned char *) base + i * l->size + x.off, x.width, v); }
    void *alloc(size_t n) const { void *p = malloc(n * l->size + 1); memset(p, 0xa5, n * l->size + 1); return p; }
};
// the Lisp keyword for a C enumerator, as a number
static long long lnum(const char *en, long long v) {
    for (auto & e : C_ENUMS) if (e.lisp == en) {
        const LEnum *l = lenum(e); if (!l) throw Skip();
        std::string n; for (auto & m : e.members) if (m.value == v) n = m.name;
        for (auto & m : l->members) if (norm(m.name) == n) return m.value;
        return v;
    }
    throw Skip();
}
// and back: the C enumerator with the name Lisp gives to V
static long long cnum(const char *en, long long v) {
    for (auto & e : C_ENUMS) if (e.lisp == en) {
        const LEnum *l = lenum(e); if (!l) throw Skip();
        for (auto & m : l->members) if (m.value == v) for (auto & x : e.members) if (x.name == norm(m.name)) return x.value;
        return v;
    }
    throw Skip();
}
static void lfill(const LS & ls, void *base, uint64_t i, const Pred & p) {      // build-predicate
    ls.put(base, i, "kind", lnum("predicate_kind", p.kind)); ls.put(base, i, "n_children", p.ch.size()); ls.put(base, i, "var_index", p.var);
    ls.put(base, i, "unsigned_value", p.u); ls.put(base, i, "signed_value", p.s); uint64_t d; memcpy(&d, &p.d, 8); ls.put(base, i, "float_value", d);
    void *ch = p.ch.empty() ? NULL : ls.alloc(p.ch.size());
    ls.put(base, i, "children", P(ch));
    for (size_t k = 0; k < p.ch.size(); k++) lfill(ls, ch, k, p.ch[k]);
}
static std::vector<Res> lconvert(const void *r, uint64_t n, bool aux) {
    LS tp("c_trace_point_struct"), vi("c_trace_var_info_struct");
    std::vector<Res> out;
    for (uint64_t i = 0; i < n; i++) {
        Res x; x.statement = tp.get(r, i, "statement");
        const void *vs = V(tp.get(r, i, "vars")); const uint64_t *ax = (const uint64_t *) V(tp.get(r, i, "aux"));
        for (uint64_t j = 0; j < tp.get(r, i, "n_vars"); j++) {
            uint32_t fmt = cnum("type_format", vi.get(vs, j, "format")); uint64_t sz = vi.get(vs, j, "size"), u = vi.get(vs, j, "value");
            x.vars.push_back(vtext(vi.get(vs, j, "var_name_index"), vi.get(vs, j, "type_name_index"), fmt, sz, u,
                                   fmt == (uint32_t) BLOB ? Bytes((const char *) V(u), sz) : Bytes(), vi.get(vs, j, "has_buffer_size"), vi.get(vs, j, "buffer_size")));
        }
        if (aux) for (uint64_t j = 0; j < tp.get(r, i, "n_aux"); j++) x.aux.push_back(ax[j]);
        out.push_back(x);
    }
    return out;
}
static std::vector<Res> lask(const void *db, uint64_t index, const Query & x) {
    LS fv("c_free_variable"), pr("c_predicate");
    void *f = fv.alloc(x.fv.size()); std::vector<void *> types;
    for (size_t i = 0; i < x.fv.size(); i++) {
        uint32_t *t = (uint32_t *) malloc(x.fv[i].size() * 4 + 1); if (!x.fv[i].empty()) memcpy(t, x.fv[i].data(), x.fv[i].size() * 4);
        types.push_back(t); fv.put(f, i, "n_allowed_types", x.fv[i].size()); fv.put(f, i, "allowed_types", P(t));
    }
    void *hard = NULL; if (x.hard.kind != NULL_PREDICATE) { hard = pr.alloc(1); lfill(pr, hard, 0, x.hard); }
    std::vector<void *> soft; for (auto & s : x.soft) { void *p = pr.alloc(1); lfill(pr, p, 0, s); soft.push_back(p); }
    void *res = NULL; uint64_t n = 0;
    call("query_trace", {P(db), index, P(f), x.fv.size(), P(hard), P(soft.data()), soft.size(), x.seed, x.keep, x.mask, x.st, P(&res), P(&n)});
    std::vector<Res> out = lconvert(res, n, !x.fv.empty());
    call("free_trace_points", {P(res), n});
    call("free_c_predicate", {P(hard)}); for (auto s : soft) call("free_c_predicate", {P(s)});
    for (auto t : types) free(t);
    free(f);
    return out;
}
static void lcheck(mc::Ctx & c, size_t ti, const Query & x) {
    DB & d = shared(c);
    Answer a = answer(d.t[ti], x);
    if (a.open) return;
    c.step();
    try { std::string r = agree(a, x, lask(d.db, ti, x)); if (!r.empty()) c.fail("query marshalled from Lisp: " + r); } catch (Skip &) { c.count("not_declared"); }
}
SCENARIO(queries) {
    int ti = c.choose(traces().size());
    Query x; x.fv = c.pick(frees());
    x.hard = c.pick(preds(x.fv.size())); x.soft = c.pick(softs(x.fv.size()));
    x.keep = !c.flip();
    int m = c.choose(4);
    if (m == 1) { x.mask = ~0ull; x.st = 1; }
    if (m == 2) { x.mask = 1; x.st = 1; }
    if (m == 3) { x.mask = 0x8000000000000000ull; x.st = 0; }
    int s = c.choose(3); if (s) x.seed = s == 1 ? 1 + ti * 7 + m : 0x80000000u;
    if (!c.mine()) return;
    c.describe(strf("trace %d, ", ti) + show(x)); c.state(mc::hash_str(c.desc));
    lcheck(c, ti, x);
}
SCENARIO(operators) {           // every operator and constant through the Lisp layout
    static const int cmps[] = {GREATER_THAN, GREATER_THAN_OR_EQUAL, LESS_THAN, LESS_THAN_OR_EQUAL, EQUAL}, ar[] = {ADD, SUBTRACT, MULTIPLY, DIVIDE};
    static const std::vector<Pred> leaves = {val(0), val(1), siz(0), num(0), num(3), num(~0ull), sig(-1), sig(INT64_MIN), flo(1.5), flo(-0.25)};
    Query x; x.fv = c.flip() ? std::vector<std::vector<uint32_t> >{{0, 1, 2, 3, 5, 6}, {0, 1, 2, 3, 5, 6}} : std::vector<std::vector<uint32_t> >{{0}, {1, 0}};
    Pred a = c.pick(leaves), b = c.pick(leaves);
    int k = c.choose(5); int j = c.choose(5);
    Pred l = j ? op(ar[j - 1], a, b) : a;
    x.hard = op(cmps[k], l, b);
    int o = c.choose(4);
    if (o == 1) x.hard = lnot(x.hard);
    if (o == 2) x.hard = many(AND, {x.hard, distinct(0, 1)});
    if (o == 3) x.hard = many(OR, {x.hard, op(EQUAL, val(0), num(1)), distinct(1, 0)});
    int ti = 3 + c.choose(4);
    if (!c.mine()) return;
    c.describe(strf("trace %d, ", ti) + show(x)); c.state(mc::hash_str(c.desc));
    lcheck(c, ti, x);
}
// ---- traces -------------------------------------------------------------------
static void lview(mc::Ctx & c, const DTrace & w, uint64_t t) {
    c.check(call("n_names", {t}) == w.names.size(), "n_names");
    c.check(call("n_types", {t}) == w.types.size(), "n_types");
    uint64_t n = call("trace_size", {t});
    c.check(n == w.points.size(), strf("trace_size: expected %zu, got %llu", w.points.size(), (unsigned long long) n));
    const char **nm = (const char **) V(call("get_names", {t}));
    for (size_t i = 0; i < w.names.size(); i++) c.check(w.names[i] == nm[i], "get_names");
    free(nm);
    const char **ty = (const char **) V(call("get_types", {t}));
    for (size_t i = 0; i < w.types.size(); i++) c.check(w.names[w.types[i].name] == ty[i], "get_types");
    free(ty);
    void *p = V(call("get_points", {t}));
    std::vector<Res> got = lconvert(p, n, true), want;
    call("free_trace_points", {P(p), n});
    for (auto & x : w.points) { Res r; r.statement = x.statement; for (auto & v : x.vars) r.vars.push_back(vtext(w, v)); r.aux = x.aux; want.push_back(r); }
    for (size_t i = 0; i < want.size(); i++) c.check(got[i] == want[i], strf("point %zu read through the Lisp layout: expected ", i) + show(want[i]) + ", got " + show(got[i]));
}
static void lread(mc::Ctx & c, const model::Trace & m, uint64_t max) {
    Bytes b = encode(m); std::string f = c.scratch + "/l.bin"; impl::write_file(f, b);
    DTrace w; if (decode(b, max, w) != OK) abort();
    try {
        uint64_t t = call("read_trace", {P(f.c_str()), 5, max});
        c.check(t != 0, "read_trace fails"); lview(c, w, t); call("free_trace", {t});
        uint64_t db = call("create_db", {});
        c.check((uint32_t) call("add_trace", {db, P(f.c_str()), 5, max}) != 0, "add_trace fails");
        c.check((uint32_t) call("add_trace", {db, P((f + ".none").c_str()), 5, max}) == 0, "add_trace of a missing file succeeds");
        c.check((uint32_t) call("add_trace", {db, P(f.c_str()), 5, 1}) != 0, "add_trace fails");
        c.check(call("n_traces", {db}) == 2, "n_traces");
        lview(c, w, call("get_trace", {db, 0}));
        DTrace w1; decode(b, 1, w1);
        lview(c, w1, call("get_trace", {db, 1}));
        char *s = (char *) V(call("serialize_trace_db", {db}));
        call("free_db", {db});
        db = call("deserialize_trace_db", {P(s)}); free(s);
        lview(c, w, call("get_trace", {db, 0}));
        call("free_db", {db});
        c.step(10);
    } catch (Skip &) { c.count("not_declared"); }
}
SCENARIO(traces_read) {
    int ti = c.choose(traces().size()); static const std::vector<uint64_t> maxes = {0, 1, 2, 1ull << 32, (1ull << 32) + 1, ~0ull};
    uint64_t m = c.pick(maxes);
    if (!c.mine()) return;
    c.describe(strf("trace %d, limit %llx", ti, (unsigned long long) m)); c.state(mc::hash_str(c.desc));
    lread(c, traces()[ti], m);
}
SCENARIO(values_read) {
    model::Type t = c.pick(gen::all_types());
    model::Trace m; m.names = {"t", "a", "b"}; m.types = {t}; int w = t.size ? t.size : 5;
    auto pat = gen::patterns(w); Bytes v = pat[c.choose(pat.size())];
    if (!c.mine()) return;
    m.points = {{stmt(1), var(1, 0, v), aux(1)}, {stmt(1ull << 63), var(2, 0, Bytes(w, '\1')), var(1, 0, v)}};
    if (t.format == FP && w == 8) { uint64_t a; memcpy(&a, v.data(), 8); m.points[0].insert(m.points[0].begin(), buf(a & ~0xffull, a >> 8 == (~0ull >> 8) ? 0xfe : 0x100)); }
    c.describe(model::show(m)); c.state(mc::hash_str(c.desc));
    lread(c, m, 0);
}
SCENARIO(points_added) {        // add-trace-points
    int np = c.choose(3), nv = c.choose(3); static const std::vector<int64_t> vals = {0, 1, -1, INT64_MIN, INT64_MAX, 0x1122334455667788ll};
    int64_t v = c.pick(vals); int sized = c.choose(2), nax = c.choose(3); uint64_t st = c.flip() ? 0x8000010000000002ull : 5;
    if (!c.mine()) return;
    c.describe(strf("%d points of %d variables, value %lld, statement %llx%s, %d aux", np, nv, (long long) v, (unsigned long long) st, sized ? ", sized" : "", nax)); c.state(mc::hash_str(c.desc));
    try {
        LS tp("c_trace_point_struct"), vi("c_trace_var_info_struct");
        static const char *names[] = {"x", "y", "int"};
        std::vector<uint64_t> ax = {7, ~0ull};
        void *ps = tp.alloc(np); std::vector<void *> vs;
        for (int i = 0; i < np; i++) {
            void *x = vi.alloc(nv); vs.push_back(x);
            tp.put(ps, i, "statement", st + i); tp.put(ps, i, "vars", P(x)); tp.put(ps, i, "n_vars", nv); tp.put(ps, i, "aux", nax ? P(ax.data()) : 0); tp.put(ps, i, "n_aux", nax);
            for (int j = 0; j < nv; j++) {
                vi.put(x, j, "value", v); vi.put(x, j, "format", lnum("type_format", v < 0 ? SIGNED : UNSIGNED)); vi.put(x, j, "var_name_index", j);
                vi.put(x, j, "type_name_index", 2); vi.put(x, j, "size", 8); vi.put(x, j, "has_buffer_size", sized); vi.put(x, j, "buffer_size", sized ? 40 + j : 0);
            }
        }
        uint64_t db = call("create_db", {});
        c.check((uint32_t) call("add_trace_points", {db, P(ps), (uint64_t) np, P(names), 3}) != 0, "add_trace_points fails");
        for (auto x : vs) free(x);
        free(ps);
        uint64_t t = call("get_trace", {db, 0}); c.check(call("trace_size", {t}) == (uint64_t) np, "trace_size");
        c.check(call("n_names", {t}) == 3, "n_names");
        void *p = V(call("get_points", {t}));
        std::vector<Res> got = lconvert(p, np, true); call("free_trace_points", {P(p), (uint64_t) np});
        for (int i = 0; i < np; i++) {
            Res w; w.statement = st + i; for (int j = 0; j < nax; j++) w.aux.push_back(ax[j]);
            for (int j = 0; j < nv; j++) w.vars.push_back(vtext(j, 2, v < 0 ? FS : FU, 8, v, "", sized, 40 + j));
            c.check(got[i] == w, strf("point %d: expected ", i) + show(w) + ", got " + show(got[i]));
        }
        call("free_db", {db}); c.step();
    } catch (Skip &) { c.count("not_declared"); }
}
