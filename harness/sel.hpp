// sel.hpp -- the part of the software-evolution library that the
// instrumentation code uses, as a model: programs are trees of ASTs whose
// nodes have children, text around them, and ASTs put before and after.
// The instrumentation itself is the Lisp source of the working tree, run by
// cl.hpp on top of this.
#ifndef SEL_HPP
#define SEL_HPP
#include "cl.hpp"
#include "lisp_src.inc"            // LISP_SOURCES
// no foreign memory here: built without the address sanitizer
extern "C" __attribute__((weak)) int __asan_address_is_poisoned(void const volatile *) { return 0; }
extern "C" __attribute__((weak)) void *__asan_region_is_poisoned(void *, size_t) { return NULL; }

namespace sel {
using cl::V; using cl::I; using cl::Args; using cl::Inst; using cl::Sym; using cl::S; using cl::sym; using cl::key; using cl::nil; using cl::yes; using cl::cons; using cl::list;

struct Syms { Sym *text, *children, *before, *after, *annotations, *serial, *roles, *name, *types, *genome, *flags, *language; };
static inline Syms & sy() { static Syms *s = NULL; if (!s) { s = new Syms; s->text = S(sym("%text")); s->children = S(sym("children")); s->before = S(sym("before-asts")); s->after = S(sym("after-asts")); s->annotations = S(sym("annotations")); s->serial = S(sym("%serial")); s->roles = S(sym("%roles")); s->name = S(sym("%name")); s->types = S(sym("%types")); s->genome = S(sym("genome")); s->flags = S(sym("flags")); s->language = S(sym("%language")); } return *s; }
static inline V get(V n, Sym *s) { auto & m = ((Inst *) n)->s; auto i = m.find(s); return i == m.end() ? nil() : i->second; }
static inline void put(V n, Sym *s, V v) { cl::touch(n); ((Inst *) n)->s[s] = v; }
static inline cl::Class *cls(const std::string & n) { V c = S(sym(n))->cls; if (!c) cl::unsupported("AST class " + n); return (cl::Class *) c; }
static inline bool is_ast(V v) { return v->t == cl::INST && cl::isa_class(((Inst *) v)->c, cls("ast")); }
static inline void need_ast(V v) { if (!is_ast(v)) throw cl::LispError{"not an AST: " + cl::show(v), nil()}; }
static long g_serial = 0;
// PARTS: text pieces (strings) and children, in the order of the text
static inline V node(const std::string & c, const Args & parts) {
    Inst *n = new Inst; n->c = cls(c); Args tx, kids; std::string cur;
    for (auto p : parts) if (p->t == cl::STR) cur += cl::text(p); else { tx.push_back(cl::str(cur)); cur.clear(); kids.push_back(p); }
    tx.push_back(cl::str(cur));
    n->s[sy().text] = cl::vec(tx); n->s[sy().children] = list(kids); n->s[sy().before] = nil(); n->s[sy().after] = nil(); n->s[sy().annotations] = nil(); n->s[sy().serial] = cl::num(++g_serial);
    return n;
}
static inline V role(V n, const char *r, size_t i) { put(n, sy().roles, cons(cons(sym(r), cl::num(i)), get(n, sy().roles))); return n; }
static inline long serial(V n) { return (long) cl::in(get(n, sy().serial)); }
static inline V copy(V n) { Inst *m = new Inst; m->c = ((Inst *) n)->c; m->s = ((Inst *) n)->s; return m; }
static inline void render(V n, std::string & o) {
    for (auto x : cl::items(get(n, sy().before))) render(x, o);
    Args kids = cl::items(get(n, sy().children)); auto & tx = ((cl::Vec *) get(n, sy().text))->v;
    for (size_t i = 0; i < kids.size(); i++) { if (i < tx.size()) o += cl::text(tx[i]); render(kids[i], o); }
    if (kids.size() < tx.size()) o += cl::text(tx[kids.size()]);
    for (auto x : cl::items(get(n, sy().after))) render(x, o);
}
static inline std::string text_of(V n) { std::string o; render(n, o); return o; }
typedef std::vector<std::pair<Sym *, size_t> > Path;
static inline std::vector<std::pair<Sym *, Args> > slots(V n) { return { {sy().before, cl::items(get(n, sy().before))}, {sy().children, cl::items(get(n, sy().children))}, {sy().after, cl::items(get(n, sy().after))} }; }
// positions of all nodes of a tree, by serial number
struct Place { V n, parent; Path path; size_t order; };
struct Index { std::unordered_map<long, Place> at; Args order; };
static inline std::unordered_map<V, Index> & indices() { static std::unordered_map<V, Index> m; return m; }
static inline void index_(Index & ix, V n, V parent, Path & p) {
    if (!ix.at.count(serial(n))) ix.at[serial(n)] = Place{n, parent, p, ix.order.size()};
    ix.order.push_back(n);
    for (auto & s : slots(n)) for (size_t i = 0; i < s.second.size(); i++) { p.push_back(std::make_pair(s.first, i)); index_(ix, s.second[i], n, p); p.pop_back(); }
}
static inline Index & index_of(V root) { auto & m = indices(); auto i = m.find(root); if (i != m.end()) return i->second; if (m.size() > 4000) m.clear(); Index & ix = m[root]; Path p; index_(ix, root, NULL, p); return ix; }
static inline V root_of(V x) { if (x->t != cl::INST) throw cl::LispError{"not a software object or AST: " + cl::show(x), nil()}; return is_ast(x) ? x : get(x, sy().genome); }
static inline Place & place(V where, V n) { need_ast(n); Index & ix = index_of(root_of(where)); auto i = ix.at.find(serial(n)); if (i == ix.at.end()) throw cl::LispError{"the AST is not in the tree", nil()}; return i->second; }
static inline V path_list(const Path & p) { Args a; for (auto & x : p) a.push_back(cons((V) x.first, cl::num(x.second))); return list(a); }
static inline Path path_from(V l) { Path p; for (auto x : cl::items(l)) { if (!cl::consp(x)) cl::unsupported("path"); p.push_back(std::make_pair(S(cl::car(x)), (size_t) cl::in(cl::cdr(x)))); } return p; }
static inline V at_path(V n, const Path & p) { for (auto & x : p) { Args a = cl::items(get(n, x.first)); if (x.second >= a.size()) return NULL; n = a[x.second]; } return n; }
// a copy of the tree with the node at P replaced (or removed: NULL)
static inline V replaced(V n, const Path & p, size_t i, V by) {
    if (i == p.size()) return by;
    V m = copy(n); Args a = cl::items(get(n, p[i].first)); if (p[i].second >= a.size()) throw cl::LispError{"no AST at the path", nil()};
    V r = replaced(a[p[i].second], p, i + 1, by);
    if (r) a[p[i].second] = r;
    else {
        a.erase(a.begin() + p[i].second);
        if (p[i].first == sy().children) { Args tx = ((cl::Vec *) get(n, sy().text))->v; std::string j = cl::text(tx[p[i].second]) + cl::text(tx[p[i].second + 1]); tx[p[i].second] = cl::str(j); tx.erase(tx.begin() + p[i].second + 1); put(m, sy().text, cl::vec(tx)); put(m, sy().roles, nil()); }
    }
    put(m, p[i].first, list(a)); return m;
}
static inline int path_cmp(const Path & a, const Path & b) { // in the order of the text; a prefix comes first
    auto rank = [](Sym *s) { return s == sy().before ? 0 : s == sy().children ? 1 : 2; };
    for (size_t i = 0; i < a.size() && i < b.size(); i++) { int x = rank(a[i].first), y = rank(b[i].first); if (x != y) return x < y ? -1 : 1; if (a[i].second != b[i].second) return a[i].second < b[i].second ? -1 : 1; }
    return a.size() < b.size() ? -1 : a.size() > b.size();
}
static inline bool find_path(V n, long ser, Path & p) { if (serial(n) == ser) return true; for (Sym *s : {sy().before, sy().children, sy().after}) { size_t i = 0; for (V l = get(n, s); cl::consp(l); l = cl::cdr(l), i++) { p.push_back(std::make_pair(s, i)); if (find_path(cl::car(l), ser, p)) return true; p.pop_back(); } } return false; }
static inline Path path_in(V root, V n) { need_ast(n); Path p; if (!find_path(root, serial(n), p)) throw cl::LispError{"the AST is not in the tree", nil()}; return p; }
static inline V by_role(V n, const char *r) { need_ast(n); for (auto x : cl::items(get(n, sy().roles))) if (cl::car(x) == sym(r)) { Args k = cl::items(get(n, sy().children)); size_t i = (size_t) cl::in(cl::cdr(x)); return i < k.size() ? k[i] : nil(); } return nil(); }
static inline V ancestors(V where, V n, bool self) { Args r; Place *p = &place(where, n); if (self) r.push_back(p->n); while (p->parent) { r.push_back(p->parent); p = &place(where, p->parent); } return list(r); }
static inline V siblings(Args & a, bool before) {
    cl::arity(a, 3, 3); Place & p = place(a[1], a[2]); Args r; if (!p.parent) return nil(); bool seen = false;
    for (auto & s : slots(p.parent)) for (auto x : s.second) { if (serial(x) == serial(a[2])) { seen = true; continue; } if (seen != before && yes(cl::call(a[0], x))) r.push_back(x); }
    return list(r);
}
static inline V source_text(V v) { if (v->t == cl::STR) return v; if (v == nil()) return cl::str(""); need_ast(v); return cl::str(text_of(v)); }
static inline V convert(Args & a) {
    cl::arity(a, 2, 100); V sp = a[1]; if (sp->t == cl::INST) return sp; if (!cl::consp(sp)) cl::unsupported("convert");
    auto opt = [&](const char *n) -> V { for (auto x : cl::items(sp)) if (cl::car(x) == key(n)) return cl::cdr(x); return NULL; };
    V c = opt("class"), t = opt("text"), k = opt("children"), an = opt("annotations"), be = opt("before-asts"), af = opt("after-asts"); if (!c) cl::unsupported("convert without a class");
    for (auto x : cl::items(sp)) { std::string n = S(cl::car(x))->name; if (n != "class" && n != "text" && n != "children" && n != "annotations" && n != "before-asts" && n != "after-asts") cl::unsupported("convert with " + n); }
    std::string n = S(c)->name; V r;
    if (n == "compound-statement") { Args p = { cl::str("{") }; if (k) for (auto x : cl::items(k)) p.push_back(x); p.push_back(cl::str("}")); r = node("c/cpp-compound-statement", p); }
    else { if (k && k != nil()) cl::unsupported("convert of " + n + " with children"); std::string cn = n == "text-fragment" ? "text-fragment" : "c/cpp-" + n; if (!S(sym(cn))->cls) cl::unsupported("convert to " + n); r = node(cn, { t ? t : (V) cl::str("") }); }
    if (a[0]->t == cl::SYM) put(r, sy().language, a[0]);
    if (an) put(r, sy().annotations, an); if (be) put(r, sy().before, be); if (af) put(r, sy().after, af);
    return r;
}
static inline V mutate(Args & a) {
    cl::arity(a, 2, 2); V obj = a[0];
    for (auto op : cl::items(a[1])) {
        std::string o = S(cl::car(op))->name; V st = NULL, va = NULL;
        for (auto x : cl::items(cl::cdr(op))) { if (cl::car(x) == key("stmt1")) st = cl::cdr(x); else if (cl::car(x) == key("value1") || cl::car(x) == key("literal1")) va = cl::cdr(x); else cl::unsupported("mutation with " + cl::show(cl::car(x))); }
        if (!st) cl::unsupported("mutation without a statement");
        V root = get(obj, sy().genome); Path p = is_ast(st) ? path_in(root, st) : path_from(st); V nv = va && va->t == cl::FUN ? cl::apply(va, Args{}) : va;
        if (o == "set") { if (!nv) cl::unsupported("set without a value"); need_ast(nv); put(obj, sy().genome, replaced(get(obj, sy().genome), p, 0, nv)); }
        else if (o == "cut") put(obj, sy().genome, replaced(root, p, 0, NULL));
        else cl::unsupported("mutation " + o);
    }
    return obj;
}
static std::function<V(V, Args &)> g_task_map;     // threads, then function and lists
static inline void classes() {
    auto d = [](const char *n, std::initializer_list<const char *> sup, const char *sl = "()") { Args s; for (auto x : sup) s.push_back(sym(x)); std::string *t = new std::string(sl); cl::defclass_(sym(n), list(s), cl::read_one(*t)); };
    d("ast", {}); d("c/cpp-ast", {"ast"}); d("c-ast", {"c/cpp-ast"}); d("cpp-ast", {"c/cpp-ast"});
    for (const char *n : {"statement-ast", "expression-ast", "compound-ast", "loop-ast", "variable-declaration-ast", "declaration-ast", "parse-error-ast", "variation-point", "source-text-fragment", "text-fragment", "function-ast", "function-declaration-ast", "literal-ast", "identifier-ast", "comment-ast", "return-ast", "goto-ast", "if-ast", "control-flow-ast", "conditional-ast", "root-ast", "terminal-symbol"}) d(n, {"ast"});
    d("expression-statement-ast", {"statement-ast"}); d("return-statement-ast", {"statement-ast"});
    d("c/cpp-translation-unit", {"c/cpp-ast", "root-ast"}); d("c/cpp-compound-statement", {"c/cpp-ast", "compound-ast", "statement-ast"}); d("c/cpp-expression-statement", {"c/cpp-ast", "expression-statement-ast"});
    d("c/cpp-if-statement", {"c/cpp-ast", "if-ast", "conditional-ast", "control-flow-ast", "statement-ast"}); d("c/cpp-switch-statement", {"c/cpp-ast", "control-flow-ast", "statement-ast"}); d("c/cpp-case-statement", {"c/cpp-ast", "statement-ast"}); d("c/cpp-labeled-statement", {"c/cpp-ast", "statement-ast"});
    for (const char *n : {"c/cpp-while-statement", "c/cpp-do-statement", "c/cpp-for-statement"}) d(n, {"c/cpp-ast", "loop-ast", "control-flow-ast", "statement-ast"});
    d("c/cpp-return-statement", {"c/cpp-ast", "return-ast", "return-statement-ast"}); d("c/cpp-goto-statement", {"c/cpp-ast", "goto-ast", "statement-ast"});
    for (const char *n : {"c/cpp-break-statement", "c/cpp-continue-statement"}) d(n, {"c/cpp-ast", "statement-ast"});
    d("c/cpp-declaration", {"c/cpp-ast", "variable-declaration-ast", "declaration-ast", "statement-ast"}); d("c/cpp-parameter-declaration", {"c/cpp-ast", "variable-declaration-ast"}); d("c/cpp-parameter-list", {"c/cpp-ast"});
    d("c/cpp-function-definition", {"c/cpp-ast", "function-ast"}); d("c/cpp-enumerator", {"c/cpp-ast", "variable-declaration-ast"});
    for (const char *n : {"c/cpp-function-declarator", "c/cpp-init-declarator", "c/cpp-pointer-declarator", "c/cpp-array-declarator", "c/cpp-parenthesized-declarator", "c/cpp-storage-class-specifier", "c/cpp-type-qualifier", "c/cpp-primitive-type", "c/cpp-sized-type-specifier", "c/cpp-type-identifier", "c/cpp-identifier", "c/cpp-number-literal", "c/cpp-string-literal", "c/cpp-signed", "c/cpp-unsigned", "c/cpp-short", "c/cpp-long", "c/cpp-else-clause", "c/cpp-comment"}) d(n, {"c/cpp-ast"});
    for (const char *n : {"c/cpp-binary-expression", "c/cpp-assignment-expression", "c/cpp-call-expression", "c/cpp-update-expression", "c/cpp-parenthesized-expression"}) d(n, {"c/cpp-ast", "expression-ast"});
    for (const char *n : {"c/cpp-preproc-if", "c/cpp-preproc-ifdef", "c/cpp-preproc-elif", "c/cpp-preproc-else", "c/cpp-preproc-def", "c/cpp-preproc-include", "c/cpp-preproc-function-def"}) d(n, {"c/cpp-ast"});
    d("c/cpp-error", {"c/cpp-ast", "parse-error-ast"});
    d("c/cpp-canonical-type", {}, "((declarator :accessor declarator :initarg :declarator :initform nil) (specifier :accessor specifier :initarg :specifier :initform nil))");
    d("software", {}, "((genome :accessor genome :initarg :genome :initform nil) (flags :accessor flags :initarg :flags :initform nil))"); d("parseable", {"software"}); d("c/cpp", {"parseable"}); d("c", {"c/cpp"}); d("cpp", {"c/cpp"});
    d("project", {}, "((evolve-files :accessor evolve-files :initarg :evolve-files :initform nil) (other-files :accessor other-files :initarg :other-files :initform nil))"); d("c/cpp-project", {"project"}); d("c-project", {"c/cpp-project"}); d("cpp-project", {"c/cpp-project"});
}
static inline void functions() {
    using cl::def; using cl::arity;
    def("asts", [](Args & a) { arity(a, 1, 1); Args o = index_of(root_of(a[0])).order; o.erase(o.begin()); return list(o); });
    def("genome-string", [](Args & a) { arity(a, 1, 2); return cl::str(text_of(root_of(a[0]))); });
    def("source-text", [](Args & a) { arity(a, 1, 100); return source_text(a[0]); });
    def("ast-path", [](Args & a) { arity(a, 2, 2); return path_list(place(a[0], a[1]).path); });
    def("lookup", [](Args & a) -> V { arity(a, 2, 2); V r = root_of(a[0]); if (is_ast(a[1])) return place(r, a[1]).n; V n = at_path(r, path_from(a[1])); if (!n) throw cl::LispError{"no AST at the path", nil()}; return n; }); cl::S(sym("@"))->fn = cl::S(sym("lookup"))->fn;
    def("with", [](Args & a) -> V { arity(a, 3, 3); V r = root_of(a[0]); need_ast(a[2]); V n = replaced(r, is_ast(a[1]) ? place(r, a[1]).path : path_from(a[1]), 0, a[2]); if (is_ast(a[0])) return n; V o = copy(a[0]); put(o, sy().genome, n); return o; });
    def("less", [](Args & a) -> V { arity(a, 2, 2); V r = root_of(a[0]); V n = replaced(r, is_ast(a[1]) ? place(r, a[1]).path : path_from(a[1]), 0, NULL); if (is_ast(a[0])) return n; V o = copy(a[0]); put(o, sy().genome, n); return o; });
    def("path-later-p", [](Args & a) { arity(a, 2, 3); Path x, y; if (a.size() == 3) { x = is_ast(a[1]) ? place(a[0], a[1]).path : path_from(a[1]); y = is_ast(a[2]) ? place(a[0], a[2]).path : path_from(a[2]); } else { x = path_from(a[0]); y = path_from(a[1]); } return cl::boolean(path_cmp(x, y) > 0); });
    def("get-parent-ast", [](Args & a) { arity(a, 2, 2); V p = place(a[0], a[1]).parent; return p ? p : nil(); });
    def("get-parent-asts", [](Args & a) { arity(a, 2, 2); return ancestors(a[0], a[1], true); }); def("get-parent-asts*", [](Args & a) { arity(a, 2, 2); return ancestors(a[0], a[1], false); });
    def("find-preceding", [](Args & a) { return siblings(a, true); }); def("find-following", [](Args & a) { return siblings(a, false); });
    def("children", [](Args & a) { arity(a, 1, 1); need_ast(a[0]); Args r; for (auto & s : slots(a[0])) for (auto x : s.second) r.push_back(x); return list(r); });
    def("direct-children", [](Args & a) { arity(a, 1, 1); need_ast(a[0]); return get(a[0], sy().children); });
    def("before-asts", [](Args & a) { arity(a, 1, 1); need_ast(a[0]); return get(a[0], sy().before); }); def("after-asts", [](Args & a) { arity(a, 1, 1); need_ast(a[0]); return get(a[0], sy().after); });
    for (const char *n : {"ast-annotations", "annotations"}) def(n, [](Args & a) { arity(a, 1, 1); need_ast(a[0]); return get(a[0], sy().annotations); });
    def("ast-annotation", [](Args & a) -> V { arity(a, 2, 2); for (auto x : cl::items(get(a[0], sy().annotations))) if (cl::car(x) == a[1]) return cl::cdr(x); return nil(); });
    def("copy", [](Args & a) -> V { arity(a, 1, 100); if (a[0]->t != cl::INST) cl::unsupported("copy"); V n = copy(a[0]); for (size_t i = 1; i + 1 < a.size(); i += 2) { std::string k = S(a[i])->name; if (k != "before-asts" && k != "after-asts" && k != "annotations" && k != "children" && k != "genome" && k != "flags") cl::unsupported("copy with " + k); put(n, S(sym(k)), a[i + 1]); } return n; });
    def("convert", convert); def("apply-mutation-ops", mutate);
    def("language-ast-class", [](Args & a) { arity(a, 1, 1); return sym(cl::typep(a[0], sym("cpp")) ? "cpp-ast" : "c-ast"); });
    for (const char *n : {"function-name", "declarator-name", "definition-name", "identifier-name"}) def(n, [](Args & a) { arity(a, 1, 1); need_ast(a[0]); return get(a[0], sy().name); });
    def("c/cpp-body", [](Args & a) { arity(a, 1, 1); return by_role(a[0], "body"); }); def("c/cpp-consequence", [](Args & a) { arity(a, 1, 1); return by_role(a[0], "consequence"); }); def("c/cpp-alternative", [](Args & a) { arity(a, 1, 1); return by_role(a[0], "alternative"); });
    def("c/cpp-declarator", [](Args & a) -> V { arity(a, 1, 1); need_ast(a[0]); Args r; for (auto x : cl::items(get(a[0], sy().children))) if (yes(get(x, sy().name))) r.push_back(x); return list(r); });
    def("canonicalize-type", [](Args & a) -> V { arity(a, 1, 100); need_ast(a[0]); V ty = get(a[0], sy().types), d = cl::kwarg(a, 1, "declarator"); if (d && yes(d)) { V n = get(d, sy().name); for (auto x : cl::items(ty)) if (cl::equal(cl::car(x), n)) return cl::cdr(x); return nil(); } return cl::consp(ty) ? cl::cdr(cl::car(ty)) : nil(); });
    def("task-map", [](Args & a) -> V { arity(a, 3, 3); if (g_task_map) return g_task_map(a[0], a); Args r; for (auto x : cl::items(a[2])) r.push_back(cl::call(a[1], x)); return list(r); });
    cl::keep_all();
}
static inline std::vector<std::string> & notes() { static std::vector<std::string> n; return n; }
static inline void boot() {
    static bool done = false; if (done) return; done = true;
    cl::setup_forms(); cl::setup_funs(); classes(); functions();
    for (auto & s : LISP_SOURCES) { std::string *t = new std::string(s.text, s.size); cl::load_text(*t, notes()); }
    if (getenv("CL_TRACE")) for (auto & n : notes()) fprintf(stderr, "note: %s\n", n.c_str());
    cl::keep_all();
}
template <class F> static void judged(mc::Ctx & c, F f) {
    boot(); cl::state().steps = 0; cl::state().limit = 2000000000ull; cl::state().depth = 0; cl::state().values.clear(); cl::state().shared = nullptr; cl::state().lock = nullptr; g_task_map = nullptr; indices().clear();
    std::string gave_up; bool failed = false; std::string msg;
    try { f(); }
    catch (cl::Unsupported & u) { gave_up = u.what; }
    catch (cl::LispError & e) { failed = true; msg = "the Lisp code signals an error: " + e.msg; }
    catch (cl::Return &) { gave_up = "non-local exit"; } catch (cl::Throw &) { gave_up = "throw"; } catch (cl::Finish &) { gave_up = "finish"; } catch (cl::Restart &) { gave_up = "restart"; }
    catch (mc::Fail & e) { failed = true; msg = e.msg; }
    cl::state().shared = nullptr; cl::state().lock = nullptr; g_task_map = nullptr; indices().clear();
    cl::release();
    if (failed) c.fail(msg);
    if (!gave_up.empty()) { c.count("not_judged: " + gave_up); if (getenv("CL_TRACE")) fprintf(stderr, "not judged: %s\n", gave_up.c_str()); }
}
static inline V fn(const char *n) { V f = S(sym(n))->fn; if (!f) cl::unsupported(std::string("function ") + n); return f; }
static inline V call(const char *n, const Args & a) { return cl::apply(fn(n), a); }
static inline V kw(const char *n) { return key(n); }
}
#endif
