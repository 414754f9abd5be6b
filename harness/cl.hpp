// cl.hpp -- an interpreter for the part of Common Lisp (with CFFI, iterate and
// the utilities the project uses) that the Lisp sources of the database are
// written in.  It runs the Lisp code of the working tree against the C library
// linked into this program.  Whatever it does not know raises Unsupported,
// which a check must not turn into a verdict.
#ifndef CL_HPP
#define CL_HPP
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <dlfcn.h>
#include <fstream>
#include <functional>
#include <map>
#include <regex>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <vector>
#include <sanitizer/asan_interface.h>

namespace cl {
typedef __int128 I;
enum Tag { SYM, INT, DBL, STR, CHR, CONS, VEC, FUN, PTR, INST, CLASS, HASH, ENV, STREAM };
struct Obj; typedef Obj *V; typedef std::vector<V> Args;
struct Unsupported { std::string what; };
struct LispError { std::string msg; V cond; };

struct Arena { std::vector<Obj *> all; size_t mark; bool dirty; Arena() : mark(0), dirty(false) {} };
inline Arena & arena() { static Arena a; return a; }
struct Pool { void *free[32]; char *at, *end; Pool() : at(NULL), end(NULL) { memset(free, 0, sizeof free); } };
inline Pool & pool() { static Pool p; return p; }
struct Obj {
    Tag t; uint32_t ix;
    // objects of the interpreter do not go through the allocator that is watched
    static void *operator new(size_t n) {
        size_t k = (n + 15) / 16; if (k >= 32) return ::operator new(n);
        Pool & p = pool(); if (p.free[k]) { void *r = p.free[k]; p.free[k] = *(void **) r; return r; }
        if (!p.at || p.end - p.at < (long) (k * 16)) { p.at = (char *) ::operator new(1 << 20); p.end = p.at + (1 << 20); }
        void *r = p.at; p.at += k * 16; return r;
    }
    static void operator delete(void *o, size_t n) { size_t k = (n + 15) / 16; if (k >= 32) { ::operator delete(o); return; } *(void **) o = pool().free[k]; pool().free[k] = o; }
    Obj(Tag t, bool permanent = false) : t(t), ix(0) { if (!permanent) { ix = arena().all.size(); arena().all.push_back(this); } }
    virtual ~Obj() {}
};
// everything allocated since the mark goes, unless something older was changed
inline void touch(Obj *o) { if (o->ix < arena().mark) arena().dirty = true; }
inline void keep_all() { arena().mark = arena().all.size(); arena().dirty = false; }
inline void release() {
    Arena & a = arena();
    if (a.dirty) { keep_all(); return; }
    while (a.all.size() > a.mark) { delete a.all.back(); a.all.pop_back(); }
}

struct Env;
typedef std::function<V(V, Env *)> Special;
struct Sym : Obj {
    std::string name; bool kw, special, constant; V value, fn, macro, fdoc; Special *form; V cls;
    Sym(const std::string & n, bool k) : Obj(SYM, true), name(n), kw(k), special(false), constant(false), value(NULL), fn(NULL), macro(NULL), fdoc(NULL), form(NULL), cls(NULL) { if (k) value = this; }
};
struct Int : Obj { I i; Int(I i) : Obj(INT), i(i) {} };
struct Dbl : Obj { double d; bool single; Dbl(double d, bool s) : Obj(DBL), d(d), single(s) {} };
struct Str : Obj { std::string s; Str(const std::string & s) : Obj(STR), s(s) {} };
struct Chr : Obj { int c; Chr(int c) : Obj(CHR), c(c) {} };
struct Cons : Obj { V a, d; Cons(V a, V d) : Obj(CONS), a(a), d(d) {} };
struct Vec : Obj { std::vector<V> v; Vec() : Obj(VEC) {} };
struct Ptr : Obj { uint64_t p; Ptr(uint64_t p) : Obj(PTR), p(p) {} };
struct Method { std::vector<std::string> quals; std::vector<V> spec; V params, body; Env *env; };
struct Fun : Obj {
    std::function<V(Args &)> nat; V params, body; Env *env; Sym *name; bool generic; std::vector<Method> methods;
    Fun() : Obj(FUN), params(NULL), body(NULL), env(NULL), name(NULL), generic(false) {}
};
struct SlotDef { Sym *name; std::vector<Sym *> initargs; V initform; bool has; };
struct Class : Obj { Sym *name; std::vector<Class *> supers; std::vector<SlotDef> slots; Class() : Obj(CLASS), name(NULL) {} };
struct Inst : Obj { Class *c; std::map<Sym *, V> s; Inst() : Obj(INST), c(NULL) {} };
struct Hash : Obj { std::vector<std::pair<V, V> > kv; int test; uint64_t made; static uint64_t & counter() { static uint64_t n = 0; return n; } Hash() : Obj(HASH), test(1), made(counter()++) {} };
struct Stream : Obj { std::string data; size_t pos; std::vector<V> objs; Stream() : Obj(STREAM), pos(0) {} };
struct Block { Sym *name; };
struct Env : Obj {
    Env *up; std::vector<std::pair<Sym *, V> > vars, funs; Sym *block; uint64_t id;
    Env(Env *u) : Obj(ENV), up(u), block(NULL), id(0) {}
};
struct Return { uint64_t id; V v; };
struct Throw { V tag, v; };
struct Finish { int depth; };
struct Restart { std::string name; uint64_t id; };

[[noreturn]] inline void unsupported(const std::string & w) { throw Unsupported{w}; }
inline V sym(const std::string & n) { static std::unordered_map<std::string, Sym *> *t = new std::unordered_map<std::string, Sym *>; Sym *& s = (*t)[n]; if (!s) s = new Sym(n, false); return s; }
inline V key(const std::string & n) { static std::unordered_map<std::string, Sym *> *t = new std::unordered_map<std::string, Sym *>; Sym *& s = (*t)[n]; if (!s) s = new Sym(n, true); return s; }
inline Sym *S(V v) { return (Sym *) v; }
inline V nil() { static V n = NULL; if (!n) { n = sym("nil"); S(n)->value = n; S(n)->constant = true; } return n; }
inline V tee() { static V n = NULL; if (!n) { n = sym("t"); S(n)->value = n; S(n)->constant = true; } return n; }
inline V boolean(bool b) { return b ? tee() : nil(); }
inline bool yes(V v) { return v != nil(); }
inline V cons(V a, V d) { return new Cons(a, d); }
inline V num(I i) { return new Int(i); }
inline V str(const std::string & s) { return new Str(s); }
inline V ptr(uint64_t p) { return new Ptr(p); }
inline bool consp(V v) { return v->t == CONS; }
inline V car(V v) { if (v == nil()) return v; if (v->t != CONS) throw LispError{"car of something that is no list", nil()}; return ((Cons *) v)->a; }
inline V cdr(V v) { if (v == nil()) return v; if (v->t != CONS) throw LispError{"cdr of something that is no list", nil()}; return ((Cons *) v)->d; }
inline V cadr(V v) { return car(cdr(v)); }
inline V cddr(V v) { return cdr(cdr(v)); }
inline V list(const Args & a) { V r = nil(); for (size_t i = a.size(); i-- > 0;) r = cons(a[i], r); return r; }
inline V list(V a, V b) { return cons(a, cons(b, nil())); }
inline V list(V a, V b, V c) { return cons(a, list(b, c)); }
inline bool is(V v, const char *n) { return v->t == SYM && !S(v)->kw && S(v)->name == n; }
inline bool iskey(V v, const char *n) { return v->t == SYM && S(v)->kw && S(v)->name == n; }
inline Args items(V v) { Args r; for (; consp(v); v = cdr(v)) r.push_back(car(v)); if (v != nil()) throw LispError{"dotted list where a list is needed", nil()}; return r; }

// ---- printing ----------------------------------------------------------------
inline std::string itoa(I i) { if (!i) return "0"; bool n = i < 0; std::string s; unsigned __int128 u = n ? -(unsigned __int128) i : i; while (u) { s.insert(s.begin(), '0' + (int) (u % 10)); u /= 10; } return n ? "-" + s : s; }
inline std::string show(V v, bool esc = true) {
    if (!v) return "#<unbound>";
    switch (v->t) {
    case SYM: return (S(v)->kw && esc ? ":" : "") + S(v)->name;
    case INT: return itoa(((Int *) v)->i);
    case DBL: { char b[64]; snprintf(b, sizeof b, "%.17g", ((Dbl *) v)->d); return b; }
    case STR: return esc ? "\"" + ((Str *) v)->s + "\"" : ((Str *) v)->s;
    case CHR: return std::string(esc ? "#\\" : "") + (char) ((Chr *) v)->c;
    case CONS: { std::string s = "("; V x = v; for (; consp(x); x = cdr(x)) s += (x == v ? "" : " ") + show(car(x), esc); if (x != nil()) s += " . " + show(x, esc); return s + ")"; }
    case VEC: { std::string s = "#("; for (size_t i = 0; i < ((Vec *) v)->v.size(); i++) s += (i ? " " : "") + show(((Vec *) v)->v[i], esc); return s + ")"; }
    case PTR: return ((Ptr *) v)->p ? "#<pointer>" : "#<null pointer>";
    case INST: return "#<" + ((Inst *) v)->c->name->name + ">";
    default: return "#<object>";
    }
}

// ---- reader ------------------------------------------------------------------
struct EndOfText {};
struct Reader {
    const std::string & s; size_t i; bool known;
    Reader(const std::string & s) : s(s), i(0), known(true) {}
    void skip() {
        for (;;) {
            while (i < s.size() && isspace((unsigned char) s[i])) i++;
            if (i < s.size() && s[i] == ';') { while (i < s.size() && s[i] != '\n') i++; continue; }
            if (s.compare(i, 2, "#|") == 0) { int d = 1; i += 2; while (i < s.size() && d) { if (s.compare(i, 2, "|#") == 0) { d--; i += 2; } else if (s.compare(i, 2, "#|") == 0) { d++; i += 2; } else i++; } continue; }
            break;
        }
    }
    bool feature(V f) {
        if (f->t == SYM) { const std::string & n = S(f)->name; return n == "sbcl" || n == "unix" || n == "linux" || n == "x86-64" || n == "64-bit" || n == "common-lisp"; }
        if (consp(f)) { std::string h = S(car(f))->name; if (h == "not") return !feature(cadr(f)); bool a = h == "and"; for (V x = cdr(f); consp(x); x = cdr(x)) if (feature(car(x)) != a) return !a; return a; }
        return false;
    }
    V closing(char c) {
        Args r; V tail = nil();
        for (;;) {
            skip(); if (i >= s.size()) throw EndOfText();
            if (s[i] == c) { i++; break; }
            if (strchr(")]}", s[i])) throw EndOfText();
            if (s[i] == '.' && i + 1 < s.size() && (isspace((unsigned char) s[i + 1]) || strchr("()", s[i + 1])) && !r.empty()) { i++; tail = read(); continue; }
            V x = read(); if (x) r.push_back(x);
        }
        V l = tail; for (size_t k = r.size(); k-- > 0;) l = cons(r[k], l);
        return l;
    }
    // NULL for a form that is left out by a feature expression
    V read() {
        skip(); if (i >= s.size()) throw EndOfText();
        char c = s[i];
        if (c == '(') { i++; return closing(')'); }
        if (c == '{') { i++; return cons(sym("%curry"), closing('}')); }
        if (c == '[') { i++; return cons(sym("%compose"), closing(']')); }
        if (s.compare(i, 2, "\xc2\xab") == 0) { i += 2; Args r; for (;;) { skip(); if (i >= s.size()) throw EndOfText(); if (s.compare(i, 2, "\xc2\xbb") == 0) { i += 2; break; } r.push_back(must()); } return cons(sym("%junction"), list(r)); }
        if (s.compare(i, 2, "\xc2\xbb") == 0) throw EndOfText();
        if (strchr(")]}", c)) throw EndOfText();
        if (c == '"') { std::string r; i++; while (i < s.size() && s[i] != '"') { if (s[i] == '\\') i++; r += s[i++]; } if (i >= s.size()) throw EndOfText(); i++; return str(r); }
        if (c == '\'') { i++; return list(sym("quote"), must()); }
        if (c == '`') { i++; return list(sym("%quasi"), must()); }
        if (c == ',') { i++; if (s[i] == '@' || s[i] == '.') { i++; return list(sym("%splice"), must()); } return list(sym("%unquote"), must()); }
        if (c == '#') {
            char d = i + 1 < s.size() ? s[i + 1] : 0;
            if (d == '\'') { i += 2; return list(sym("function"), must()); }
            if (d == '(') { i += 2; Args a = items(closing(')')); Vec *v = new Vec; v->v = a; return v; }
            if (d == '\\') { i += 2; std::string t(1, s[i++]); while (i < s.size() && (isalnum((unsigned char) s[i]) || s[i] == '-' || s[i] == '_')) t += s[i++]; std::string l; for (char x : t) l += tolower(x);
                if (t.size() == 1) return new Chr((unsigned char) t[0]); if (l == "newline" || l == "linefeed") return new Chr('\n'); if (l == "space") return new Chr(' '); if (l == "tab") return new Chr('\t'); if (l == "nul" || l == "null") return new Chr(0); unsupported("character " + t); }
            if (d == '+' || d == '-') { i += 2; bool f = feature(must()); V x = must(); return f == (d == '+') ? x : NULL; }
            if (d == 'p' || d == 'P') { i += 2; return must(); }
            if (d == ':') { i += 2; return must(); }
            if (d == '.') { i += 2; unsupported("read-time evaluation"); }
            int base = d == 'x' || d == 'X' ? 16 : d == 'b' || d == 'B' ? 2 : d == 'o' || d == 'O' ? 8 : 0;
            if (base) { i += 2; I n = 0; bool neg = false; if (s[i] == '-') { neg = true; i++; } while (i < s.size() && isalnum((unsigned char) s[i])) { int k = isdigit(s[i]) ? s[i] - '0' : tolower(s[i]) - 'a' + 10; n = n * base + k; i++; } return num(neg ? -n : n); }
            unsupported(std::string("reader macro #") + d);
        }
        std::string t; bool bar = false, esc = false;
        while (i < s.size()) {
            if (s[i] == '|') { bar = !bar; esc = true; i++; continue; }
            if (s[i] == '\\') { t += s[i + 1]; i += 2; esc = true; continue; }
            if (!bar && (isspace((unsigned char) s[i]) || strchr("()[]{}\"';`,", s[i]) || s.compare(i, 2, "\xc2\xbb") == 0)) break;
            t += bar ? s[i] : tolower(s[i]); i++;
        }
        if (t.empty() && !esc) unsupported("reading");
        return esc ? token(t) : atom(t);
    }
    V must() { V x; do x = read(); while (!x); return x; }
    static V token(const std::string & t) { if (t[0] == ':') return key(t.substr(1)); size_t p = t.rfind(':'); return sym(p == std::string::npos || p + 1 >= t.size() ? t : t.substr(p + 1)); }
    static V atom(const std::string & t) {
        size_t p = t[0] == '+' || t[0] == '-' ? 1 : 0, q = p; while (q < t.size() && isdigit((unsigned char) t[q])) q++;
        if (q > p && (q == t.size() || (q + 1 == t.size() && t[q] == '.'))) { I n = 0; for (size_t k = p; k < q; k++) { if (n > (((I) 1) << 120)) unsupported("bignum"); n = n * 10 + (t[k] - '0'); } return num(t[0] == '-' ? -n : n); }
        if (q < t.size() && (q > p || t[q] == '.')) {
            size_t r = q; if (t[r] == '.') { r++; while (r < t.size() && isdigit((unsigned char) t[r])) r++; }
            bool frac = r > q + 1 || (q > p && r > q && r < t.size()); char ex = 0; size_t m = r;
            if (r < t.size() && strchr("edfsl", t[r])) { ex = t[r]; r++; if (r < t.size() && (t[r] == '+' || t[r] == '-')) r++; size_t d0 = r; while (r < t.size() && isdigit((unsigned char) t[r])) r++; if (r == d0) ex = 0; }
            if (r == t.size() && (frac || (ex && q > p))) { std::string u = t; if (ex) u[m] = 'e'; bool dbl = ex == 'd' || ex == 'l'; double d = strtod(u.c_str(), NULL); return new Dbl(dbl ? d : (double) (float) d, !dbl); }
            if (q > p && q < t.size() && t[q] == '/') { size_t k = q + 1; while (k < t.size() && isdigit((unsigned char) t[k])) k++; if (k == t.size() && k > q + 1) unsupported("ratio"); }
        }
        return token(t);
    }
};

// ---- equality ------------------------------------------------------------------
inline bool eql(V a, V b) {
    if (a == b) return true; if (a->t != b->t) return false;
    if (a->t == INT) return ((Int *) a)->i == ((Int *) b)->i;
    if (a->t == DBL) return ((Dbl *) a)->single == ((Dbl *) b)->single && memcmp(&((Dbl *) a)->d, &((Dbl *) b)->d, 8) == 0;
    if (a->t == CHR) return ((Chr *) a)->c == ((Chr *) b)->c;
    if (a->t == PTR) return ((Ptr *) a)->p == ((Ptr *) b)->p;
    return false;
}
inline bool equal(V a, V b) {
    if (eql(a, b)) return true; if (a->t != b->t) return false;
    if (a->t == CONS) return equal(car(a), car(b)) && equal(cdr(a), cdr(b));
    return a->t == STR && ((Str *) a)->s == ((Str *) b)->s;
}
inline double fl(V v) { if (v->t == INT) return (double) ((Int *) v)->i; if (v->t == DBL) return ((Dbl *) v)->d; throw LispError{"not a number: " + show(v), nil()}; }
inline std::string lower(std::string s) { for (auto & c : s) c = tolower(c); return s; }
inline bool equalp(V a, V b) {
    if (eql(a, b)) return true;
    if ((a->t == INT || a->t == DBL) && (b->t == INT || b->t == DBL)) return fl(a) == fl(b);
    if (a->t != b->t) return false;
    if (a->t == CHR) return tolower(((Chr *) a)->c) == tolower(((Chr *) b)->c);
    if (a->t == STR) return lower(((Str *) a)->s) == lower(((Str *) b)->s);
    if (a->t == CONS) return equalp(car(a), car(b)) && equalp(cdr(a), cdr(b));
    if (a->t == VEC) { auto & x = ((Vec *) a)->v, & y = ((Vec *) b)->v; if (x.size() != y.size()) return false; for (size_t i = 0; i < x.size(); i++) if (!equalp(x[i], y[i])) return false; return true; }
    return false;
}
inline I in(V v) { if (v->t != INT) throw LispError{"not an integer: " + show(v), nil()}; return ((Int *) v)->i; }
inline std::string text(V v) { if (v->t == STR) return ((Str *) v)->s; if (v->t == SYM) return S(v)->name; if (v->t == CHR) return std::string(1, (char) ((Chr *) v)->c); throw LispError{"not a string: " + show(v), nil()}; }

// ---- evaluation ------------------------------------------------------------------
V eval(V f, Env *e);
V apply(V f, Args a);
inline V call(V f, V a) { return apply(f, Args{a}); }
inline V call(V f, V a, V b) { return apply(f, Args{a, b}); }
struct State {
    uint64_t ids; std::vector<V> values; uint64_t steps, limit; int depth;
    std::function<V(I)> random;             // chosen by the check
    std::set<uint64_t> blocks;              // foreign memory allocated from Lisp
    std::function<void(bool)> foreign;      // called around calls of the library
    std::function<void(const std::string &, Args &)> calling;   // called before a call of the library
    std::function<void(const char *)> hook; // called by operations that touch the outside
    std::map<std::string, std::function<V(Args &)> > world;
    std::vector<std::pair<std::string, uint64_t> > restarts;    // the active ones
    std::function<void(const std::string &, V)> signalled;      // a handler outside; may throw a Restart
    std::function<void(V)> shared;          // called before a hash table is used
    std::function<void(V, bool)> lock;      // a lock is taken or given back
    int guarded;                            // handlers of the Lisp code that are active
    State() : ids(0), steps(0), limit(50000000), depth(0), guarded(0) {}
};
inline State & state() { static State s; return s; }
inline V progn(V b, Env *e) { V r = nil(); for (; consp(b); b = cdr(b)) r = eval(car(b), e); return r; }
inline V *var_cell(Sym *s, Env *e) { for (; e; e = e->up) for (size_t i = e->vars.size(); i-- > 0;) if (e->vars[i].first == s) { return &e->vars[i].second; } return NULL; }
inline Env *env_of(Sym *s, Env *e) { for (; e; e = e->up) for (size_t i = e->vars.size(); i-- > 0;) if (e->vars[i].first == s) return e; return NULL; }
inline V fun_of(Sym *s, Env *e) {
    for (; e; e = e->up) for (size_t i = e->funs.size(); i-- > 0;) if (e->funs[i].first == s) return e->funs[i].second;
    return s->fn;
}
// bindings of special variables, undone on exit
struct Dynamic { std::vector<std::pair<Sym *, V> > old; ~Dynamic() { for (size_t i = old.size(); i-- > 0;) old[i].first->value = old[i].second; } void bind(Sym *s, V v) { old.push_back(std::make_pair(s, s->value)); s->value = v; } };
inline void bind(Env *e, Dynamic & d, V name, V v) { Sym *s = S(name); if (name->t != SYM) unsupported("binding " + show(name)); if (s->special) d.bind(s, v); else e->vars.push_back(std::make_pair(s, v)); }
inline void destructure(V pat, V val, Env *e, Dynamic & d, bool lenient, bool nested);
inline void bind_args(V params, Args & a, Env *e, Dynamic & d, bool lenient, const std::string & who) {
    V l = nil(); for (size_t i = a.size(); i-- > 0;) l = cons(a[i], l);
    (void) who; destructure(params, l, e, d, lenient, false);
}
inline void destructure(V pat, V val, Env *e, Dynamic & d, bool lenient, bool nested) {
    int mode = 0; bool rest = false, keys = false, other = lenient; std::vector<Sym *> known; V kv = nil();
    for (; consp(pat); pat = cdr(pat)) {
        V p = car(pat);
        if (p->t == SYM && !S(p)->kw && S(p)->name[0] == '&') {
            const std::string & n = S(p)->name;
            if (n == "&optional") mode = 1;
            else if (n == "&rest" || n == "&body") { pat = cdr(pat); bind(e, d, car(pat), val); rest = true; }
            else if (n == "&key") { mode = 3; keys = true; kv = val; }
            else if (n == "&allow-other-keys") other = true;
            else if (n == "&aux") mode = 4;
            else if (n == "&whole") { pat = cdr(pat); bind(e, d, car(pat), val); }
            else unsupported(n);
            continue;
        }
        if (mode == 0) {
            if (!consp(val)) throw LispError{"too few arguments", nil()};
            if (consp(p) || (nested && p == nil())) destructure(p, car(val), e, d, false, true); else bind(e, d, p, car(val));
            val = cdr(val);
        } else if (mode == 1) {
            V name = consp(p) ? car(p) : p, init = consp(p) ? cadr(p) : nil(), svar = consp(p) && consp(cddr(p)) ? car(cddr(p)) : NULL;
            bool given = consp(val); V x = given ? car(val) : eval(init, e); if (given) val = cdr(val);
            if (consp(name)) destructure(name, x, e, d, false, true); else bind(e, d, name, x); if (svar) bind(e, d, svar, boolean(given));
        } else if (mode == 3) {
            V name = consp(p) ? car(p) : p, init = consp(p) ? cadr(p) : nil(), svar = consp(p) && consp(cddr(p)) ? car(cddr(p)) : NULL; V k;
            if (consp(name)) { k = car(name); name = cadr(name); } else k = key(S(name)->name);
            known.push_back(S(k)); bool given = false; V x = NULL;
            for (V q = kv; consp(q); q = cddr(q)) { if (!consp(cdr(q))) throw LispError{"odd number of keyword arguments", nil()}; if (car(q) == k) { given = true; x = cadr(q); break; } }
            if (!given) x = eval(init, e);
            bind(e, d, name, x); if (svar) bind(e, d, svar, boolean(given));
        } else if (mode == 4) { if (consp(p)) bind(e, d, car(p), eval(cadr(p), e)); else bind(e, d, p, nil()); }
    }
    if (pat != nil()) { bind(e, d, pat, val); return; }
    if (keys) {
        for (V q = kv; consp(q); q = cddr(q)) if (iskey(car(q), "allow-other-keys") && consp(cdr(q)) && yes(cadr(q))) other = true;
        if (!other) for (V q = kv; consp(q); q = cddr(q)) { bool ok = iskey(car(q), "allow-other-keys"); for (auto k : known) ok |= car(q) == k; if (!ok) throw LispError{"unknown keyword argument " + show(car(q)), nil()}; if (!consp(cdr(q))) throw LispError{"odd number of keyword arguments", nil()}; }
    } else if (!rest && val != nil()) throw LispError{"too many arguments", nil()};
}
inline V strip_decl(V b) { // leading docstring and declarations
    if (consp(b) && car(b)->t == STR && consp(cdr(b))) b = cdr(b);
    while (consp(b) && consp(car(b)) && is(car(car(b)), "declare")) b = cdr(b);
    return b;
}
inline V in_block(Sym *name, Env *e, const std::function<V(Env *)> & f) {
    Env *n = new Env(e); n->block = name; n->id = ++state().ids;
    uint64_t id = n->id;
    try { return f(n); } catch (Return & r) { if (r.id != id) throw; return r.v; }
}
inline V run_lambda(V params, V body, Env *env, Sym *name, Args & a, bool lenient) {
    Env *e = new Env(env); Dynamic d;
    bind_args(params, a, e, d, lenient, name ? name->name : "lambda");
    if (name) return in_block(name, e, [&](Env *n) { return progn(body, n); });
    return progn(body, e);
}
inline V lambda(V params, V body, Env *e, Sym *name = NULL) { Fun *f = new Fun; f->params = params; f->body = strip_decl(body); f->env = e; f->name = name; return f; }
inline V native(const std::function<V(Args &)> & n) { Fun *f = new Fun; f->nat = n; return f; }
inline V fdesig(V f) { if (f->t == FUN) return f; if (f->t == SYM) { if (S(f)->fn) return S(f)->fn; if (S(f)->form || S(f)->macro) unsupported("macro as a function: " + S(f)->name); unsupported("function " + S(f)->name); } throw LispError{"not a function: " + show(f), nil()}; }

// ---- classes and generic functions -------------------------------------------------
inline bool isa_class(Class *c, Class *d) { if (c == d) return true; for (auto s : c->supers) if (isa_class(s, d)) return true; return false; }
inline void cpl(Class *c, std::vector<Class *> & o) { o.push_back(c); for (auto s : c->supers) cpl(s, o); }
inline int type_rank(V v, V spec) { // -1: does not apply; smaller is more specific
    if (is(spec, "t")) return 1000;
    if (consp(spec) && is(car(spec), "eql")) { V x = consp(cadr(spec)) && is(car(cadr(spec)), "quote") ? cadr(cadr(spec)) : cadr(spec); return eql(v, x) ? 0 : -1; }
    if (spec->t != SYM) unsupported("specializer");
    const std::string & n = S(spec)->name;
    if (S(spec)->cls) { if (v->t != INST) return -1; std::vector<Class *> o; cpl(((Inst *) v)->c, o); for (size_t i = 0; i < o.size(); i++) if (o[i] == (Class *) S(spec)->cls) return i + 1; return -1; }
    if (n == "integer" || n == "fixnum") return v->t == INT ? 10 : -1;
    if (n == "float" || n == "double-float" || n == "single-float") return v->t == DBL ? 10 : -1;
    if (n == "rational") return v->t == INT ? 12 : -1;
    if (n == "real" || n == "number") return v->t == INT || v->t == DBL ? 15 : -1;
    if (n == "string" || n == "simple-string") return v->t == STR ? 10 : -1;
    if (n == "pathname") return -1;
    if (n == "vector" || n == "array" || n == "simple-vector") return v->t == VEC || v->t == STR ? 20 : -1;
    if (n == "null") return v == nil() ? 5 : -1;
    if (n == "cons") return v->t == CONS ? 10 : -1;
    if (n == "list") return v->t == CONS || v == nil() ? 20 : -1;
    if (n == "sequence") return v->t == CONS || v == nil() || v->t == VEC || v->t == STR ? 30 : -1;
    if (n == "keyword") return v->t == SYM && S(v)->kw ? 8 : -1;
    if (n == "boolean") return v == nil() || v == tee() ? 8 : -1;
    if (n == "symbol") return v->t == SYM ? 15 : -1;
    if (n == "function") return v->t == FUN ? 10 : -1;
    if (n == "character") return v->t == CHR ? 10 : -1;
    if (n == "hash-table") return v->t == HASH ? 10 : -1;
    if (n == "stream") return v->t == STREAM ? 10 : -1;
    if (n == "foreign-pointer") return v->t == PTR ? 10 : -1;
    if (n == "standard-object") return v->t == INST ? 900 : -1;
    unsupported("type " + n);
}
// a condition as an object: an instance of this class, which has its text
inline Class *condition_class() { static Class *c = NULL; if (!c) { c = new Class; c->name = S(sym("error")); keep_all(); } return c; }
inline bool is_condition(V v) { return v->t == INST && isa_class(((Inst *) v)->c, condition_class()); }
inline V condition(const std::string & m) { Class *c = condition_class(); Inst *i = new Inst; i->c = c; i->s[S(sym("text"))] = str(m); return i; }
inline bool typep(V v, V ty) {
    if (consp(ty)) {
        const std::string & h = S(car(ty))->name; Args a = items(cdr(ty));
        if (h == "or") { for (auto x : a) if (typep(v, x)) return true; return false; }
        if (h == "and") { for (auto x : a) if (!typep(v, x)) return false; return true; }
        if (h == "not") return !typep(v, a[0]);
        if (h == "member" || h == "eql") { for (auto x : a) if (eql(v, x)) return true; return false; }
        if (h == "satisfies") return yes(call(fdesig(a[0]), v));
        if (h == "unsigned-byte") return v->t == INT && in(v) >= 0 && (a.empty() || in(v) < (((I) 1) << (int) in(a[0])));
        if (h == "signed-byte") return v->t == INT && (a.empty() || (in(v) < (((I) 1) << ((int) in(a[0]) - 1)) && in(v) >= -(((I) 1) << ((int) in(a[0]) - 1))));
        if (h == "integer") { if (v->t != INT) return false; if (a.size() > 0 && a[0]->t == INT && in(v) < in(a[0])) return false; if (a.size() > 1 && a[1]->t == INT && in(v) > in(a[1])) return false; return true; }
        unsupported("type " + h);
    }
    if (is(ty, "nil")) return false;
    if (is(ty, "error") || is(ty, "condition") || is(ty, "serious-condition")) return is_condition(v);
    if (is(ty, "unsigned-byte")) return v->t == INT && in(v) >= 0;
    return type_rank(v, ty) >= 0;
}
inline V call_method_chain(Fun *gf, std::vector<Method *> chain, size_t at, std::vector<Method *> before, std::vector<Method *> prim, std::vector<Method *> after, bool around, Args a);
inline V run_method(Fun *gf, Method *m, Args & a, const std::function<V(Args &)> & next, bool has) {
    Env *e = new Env(m->env);
    Args orig = a;
    e->funs.push_back(std::make_pair(S(sym("call-next-method")), native([next, orig](Args & b) { Args c = b.empty() ? orig : b; return next(c); })));
    e->funs.push_back(std::make_pair(S(sym("next-method-p")), native([has](Args &) { return boolean(has); })));
    return run_lambda(m->params, m->body, e, gf->name, a, true);
}
inline V apply_generic(Fun *gf, Args & a) {
    std::vector<std::pair<std::vector<int>, Method *> > app;
    for (auto & m : gf->methods) {
        std::vector<int> r; bool ok = m.spec.size() <= a.size();
        for (size_t i = 0; ok && i < m.spec.size(); i++) { int k = type_rank(a[i], m.spec[i]); ok = k >= 0; r.push_back(k); }
        if (ok) app.push_back(std::make_pair(r, &m));
    }
    std::stable_sort(app.begin(), app.end(), [](const std::pair<std::vector<int>, Method *> & x, const std::pair<std::vector<int>, Method *> & y) { return x.first < y.first; });
    std::vector<Method *> ar, be, pr, af;
    for (auto & x : app) { Method *m = x.second; if (m->quals.empty()) pr.push_back(m); else if (m->quals[0] == "around") ar.push_back(m); else if (m->quals[0] == "before") be.push_back(m); else if (m->quals[0] == "after") af.insert(af.begin(), m); else unsupported("method qualifier " + m->quals[0]); }
    if (pr.empty() && !(gf->name && gf->name->name == "initialize-instance")) throw LispError{"no applicable method for " + (gf->name ? gf->name->name : "?"), nil()};
    std::function<V(size_t, Args &)> prim = [&](size_t i, Args & b) -> V {
        if (i >= pr.size()) { if (gf->name && gf->name->name == "initialize-instance") return b.empty() ? nil() : b[0]; throw LispError{"no next method", nil()}; }
        return run_method(gf, pr[i], b, [&, i](Args & c) { return prim(i + 1, c); }, i + 1 < pr.size());
    };
    std::function<V(size_t, Args &)> arnd = [&](size_t i, Args & b) -> V {
        if (i >= ar.size()) { for (auto m : be) run_method(gf, m, b, [](Args &) -> V { unsupported("call-next-method in :before"); }, false); V r = prim(0, b); for (auto m : af) run_method(gf, m, b, [](Args &) -> V { unsupported("call-next-method in :after"); }, false); return r; }
        return run_method(gf, ar[i], b, [&, i](Args & c) { return arnd(i + 1, c); }, true);
    };
    return arnd(0, a);
}
inline V apply(V fv, Args a) {
    Fun *f = (Fun *) fdesig(fv);
    if (++state().depth > 2000) { state().depth = 0; throw LispError{"control stack exhausted", nil()}; }
    struct D { ~D() { if (state().depth) state().depth--; } } d;
    if (f->nat) return f->nat(a);
    if (f->generic) return apply_generic(f, a);
    return run_lambda(f->params, f->body, f->env, f->name, a, false);
}
inline Fun *generic(Sym *s) { if (s->fn && ((Fun *) s->fn)->generic) return (Fun *) s->fn; Fun *f = new Fun; f->generic = true; f->name = s; s->fn = f; arena().dirty = true; return f; }
inline void all_slots(Class *c, std::vector<SlotDef *> & o) { for (auto & s : c->slots) { bool dup = false; for (auto x : o) dup |= x->name == s.name; if (!dup) o.push_back(&s); } for (auto s : c->supers) all_slots(s, o); }
inline V make_instance(Args & a) {
    V n = a[0]; if (n->t == CLASS) n = ((Class *) n)->name; if (n->t != SYM || !S(n)->cls) unsupported("class " + show(n));
    Class *c = (Class *) S(n)->cls; Inst *o = new Inst; o->c = c; std::vector<SlotDef *> sl; all_slots(c, sl);
    if (a.size() % 2 == 0) throw LispError{"odd number of initargs", nil()};
    std::set<Sym *> used;
    for (auto s : sl) {
        bool done = false; std::vector<Sym *> ia; std::vector<Class *> o2; cpl(c, o2); for (auto k : o2) for (auto & x : k->slots) if (x.name == s->name) for (auto y : x.initargs) ia.push_back(y);
        for (size_t i = 1; i + 1 < a.size(); i += 2) for (auto k : ia) if (a[i] == k) { if (!done) o->s[s->name] = a[i + 1]; done = true; used.insert(k); }
        if (!done) { V form = NULL; for (auto k : o2) { for (auto & x : k->slots) if (x.name == s->name && x.has && !form) form = x.initform; } if (form) o->s[s->name] = eval(form, NULL); }
    }
    if (S(sym("initialize-instance"))->fn) { Args b = a; b[0] = o; apply(S(sym("initialize-instance"))->fn, b); }
    return o;
}
inline V slot_value(V o, V n) { if (o->t != INST) throw LispError{"not an instance: " + show(o), nil()}; auto & m = ((Inst *) o)->s; auto i = m.find(S(n)); if (i == m.end()) { std::vector<SlotDef *> sl; all_slots(((Inst *) o)->c, sl); for (auto s : sl) if (s->name == S(n)) throw LispError{"unbound slot " + show(n), nil()}; throw LispError{"no slot " + show(n), nil()}; } return i->second; }
inline V set_slot(V o, V n, V v) { if (o->t != INST) throw LispError{"not an instance: " + show(o), nil()}; touch(o); std::vector<SlotDef *> sl; all_slots(((Inst *) o)->c, sl); bool ok = false; for (auto s : sl) ok |= s->name == S(n); if (!ok) throw LispError{"no slot " + show(n), nil()}; ((Inst *) o)->s[S(n)] = v; return v; }

// ---- sequences ------------------------------------------------------------------
inline Args seq(V v) {
    if (v == nil() || v->t == CONS) return items(v);
    if (v->t == VEC) return ((Vec *) v)->v;
    if (v->t == STR) { Args r; for (unsigned char c : ((Str *) v)->s) r.push_back(new Chr(c)); return r; }
    throw LispError{"not a sequence: " + show(v), nil()};
}
inline V vec(const Args & a) { Vec *v = new Vec; v->v = a; return v; }
inline V like(V proto, const Args & a) { if (proto->t == VEC) return vec(a); if (proto->t == STR) { std::string s; for (auto x : a) s += (char) ((Chr *) x)->c; return str(s); } return list(a); }
inline V to_type(V ty, const Args & a) {
    std::string n = consp(ty) ? S(car(ty))->name : ty->t == SYM ? S(ty)->name : "?";
    if (n == "list") return list(a);
    if (n == "vector" || n == "array" || n == "simple-vector" || n == "simple-array") { if (consp(ty) && consp(cdr(ty)) && (is(cadr(ty), "character"))) unsupported("vector of characters"); return vec(a); }
    if (n == "string" || n == "simple-string") { std::string s; for (auto x : a) { if (x->t != CHR) throw LispError{"not a character", nil()}; s += (char) ((Chr *) x)->c; } return str(s); }
    unsupported("sequence type " + show(ty));
}
inline V kwarg(const Args & a, size_t from, const char *k, V def = NULL) { V kk = key(k); for (size_t i = from; i + 1 < a.size(); i += 2) if (a[i] == kk) return a[i + 1]; return def; }
inline void only_keys(const Args & a, size_t from, std::initializer_list<const char *> ks) { if ((a.size() - std::min(from, a.size())) % 2) throw LispError{"odd number of keyword arguments", nil()}; for (size_t i = from; i + 1 < a.size(); i += 2) { bool ok = false; for (auto k : ks) ok |= iskey(a[i], k); if (!ok) unsupported("keyword " + show(a[i])); } }
struct SeqArgs {
    std::function<bool(V, V)> test; std::function<V(V)> key_; bool from_end; I start; I end; I count;
    SeqArgs(const Args & a, size_t from) : from_end(false), start(0), end(-1), count(-1) {
        only_keys(a, from, {"test", "test-not", "key", "from-end", "start", "end", "count", "initial-value"});
        V t = kwarg(a, from, "test"), tn = kwarg(a, from, "test-not"), k = kwarg(a, from, "key");
        if (t && yes(t)) { V f = fdesig(t); test = [f](V x, V y) { return yes(call(f, x, y)); }; } else if (tn) { V f = fdesig(tn); test = [f](V x, V y) { return !yes(call(f, x, y)); }; } else test = [](V x, V y) { return eql(x, y); };
        if (k && yes(k)) { V f = fdesig(k); key_ = [f](V x) { return call(f, x); }; } else key_ = [](V x) { return x; };
        from_end = kwarg(a, from, "from-end") && yes(kwarg(a, from, "from-end"));
        V s = kwarg(a, from, "start"), e = kwarg(a, from, "end"), c = kwarg(a, from, "count");
        if (s) start = in(s); if (e && yes(e)) end = in(e); if (c && yes(c)) count = in(c);
    }
    size_t lo() const { return (size_t) start; }
    size_t hi(size_t n) const { size_t e = end < 0 ? n : (size_t) end; if (e > n || lo() > e) throw LispError{"bounding indices out of range", nil()}; return e; }
};
#include "cl_cffi.hpp"
#include "cl_forms.hpp"
#include "cl_funs.hpp"
#include "cl_more.hpp"

inline V eval(V f, Env *e) {
    State & st = state();
    if (++st.steps > st.limit) unsupported("too many evaluation steps");
    if (f->t == SYM) {
        Sym *s = S(f);
        if (s->value && (s->kw || s->constant)) return s->value;
        if (V *c = var_cell(s, e)) return *c;
        if (s->value) return s->value;
        unsupported("variable " + s->name);
    }
    if (f->t != CONS) return f;
    V h = car(f);
    if (h->t == SYM) {
        Sym *s = S(h); V fn = fun_of(s, e);
        bool local = fn && fn != s->fn;
        if (!local) {
            if (s->form && !fn) return (*s->form)(cdr(f), e);
            if (s->macro) { Args a = items(cdr(f)); return eval(apply(s->macro, a), e); }
        }
        if (!fn) { if (s->form) return (*s->form)(cdr(f), e); unsupported("function " + s->name); }
        Args a; for (V x = cdr(f); consp(x); x = cdr(x)) a.push_back(eval(car(x), e));
        st.values.clear();
        return apply(fn, a);
    }
    if (consp(h) && is(car(h), "lambda")) { Args a; for (V x = cdr(f); consp(x); x = cdr(x)) a.push_back(eval(car(x), e)); return apply(eval(h, e), a); }
    unsupported("call of " + show(h));
}

// ---- top level ------------------------------------------------------------------
inline void toplevel(V f, std::vector<std::string> & notes) {
    if (!consp(f) || car(f)->t != SYM) return;
    const std::string & h = S(car(f))->name;
    static const std::set<std::string> keep = {"defun", "defmethod", "defgeneric", "defclass", "defvar", "defparameter", "defconst", "defconstant", "define-constant", "defcenum", "defcstruct", "defcunion", "defctype", "defcfun", "defmacro",
        "defstore-cl-store", "defrestore-cl-store", "define-condition", "define-software", "defstruct", "defsubst", "def", "setf", "define-compiler-macro", "deftype", "defun-inline", "defplace"};
    if (h == "eval-when") { for (V x = cddr(f); consp(x); x = cdr(x)) toplevel(car(x), notes); return; }
    if (h == "progn" || h == "locally" || h == "let" || h == "let*" || h == "flet" || h == "labels" || h == "macrolet") { if (h == "progn" || h == "locally") { for (V x = cdr(f); consp(x); x = cdr(x)) toplevel(car(x), notes); return; } }
    else if (!keep.count(h) && !S(car(f))->macro) return;
    try { eval(f, NULL); }
    catch (Unsupported & u) { notes.push_back(h + " " + (consp(cdr(f)) ? show(cadr(f)).substr(0, 60) : "") + ": " + u.what); }
    catch (LispError & u) { notes.push_back(h + " " + (consp(cdr(f)) ? show(cadr(f)).substr(0, 60) : "") + ": error " + u.msg); }
    catch (Return &) {} catch (Throw &) {}
}
inline bool load_text(const std::string & t, std::vector<std::string> & notes) {
    Reader r(t);
    for (;;) {
        try { r.skip(); if (r.i >= t.size()) return true; V f = r.read(); if (f) toplevel(f, notes); }
        catch (EndOfText &) { notes.push_back("text ends inside a form"); return false; }
        catch (Unsupported & u) { notes.push_back("reader: " + u.what); size_t p = t.find("\n(", r.i); if (p == std::string::npos) return true; r.i = p + 1; }
    }
}
inline bool load_file(const std::string & f, std::vector<std::string> & notes) {
    std::ifstream i(f.c_str(), std::ios::binary); if (!i) { notes.push_back("no file " + f); return false; }
    std::stringstream s; s << i.rdbuf(); std::string *t = new std::string(s.str()); return load_text(*t, notes);
}
inline V read_one(const std::string & t) { Reader r(t); return r.must(); }
inline V run(const std::string & t) { std::string *k = new std::string(t); V f; try { f = read_one(*k); } catch (EndOfText &) { delete k; throw LispError{"text ends inside a form", nil()}; } delete k; return eval(f, NULL); }
}
#endif
