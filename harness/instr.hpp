// instr.hpp -- small C programs, as syntax trees for the instrumentation code
// (sel.hpp), as text, and as the same text with trace points of our own: the
// reference that a trace of the instrumented program is compared with.
#ifndef INSTR_HPP
#define INSTR_HPP
#include "mc.hpp"
#include "model.hpp"
#include "sel.hpp"
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <fstream>
#include <sstream>

namespace ins {
using sel::V; using sel::Args; using cl::str; using cl::nil; using cl::list; using cl::cons; using cl::key;

// ---- statements ---------------------------------------------------------
// leaves: a assignment  T commented assignment  u assignment to a variable called else...
//   d declaration  s declaration that hides x  e empty  r return  b break  c continue
//   g goto the end  P #define  H #include of a statement  K partial declaration  M macro before a statement  N macro behind one
//   x exit of the process  m declaration of three variables
// {} block  i if  j if-else  w while  o do  f for  v for without a declaration  z switch
//   L label  D #ifdef  E #ifdef-else  F #if-else (not taken)
struct Stm { char k; std::vector<Stm> kids; std::vector<std::vector<Stm> > lists; };
enum { BLOCK = 1, LOOP = 2, BREAK = 4, NESTED = 8, HAD_S = 16 };
struct Enum {
    std::string kinds; std::map<std::pair<int, int>, std::vector<Stm> > sm; std::map<std::pair<int, int>, std::vector<std::vector<Stm> > > lm;
    explicit Enum(const std::string & k) : kinds(k) {}
    bool on(char c) const { return kinds.find(c) != std::string::npos; }
    static bool open(const Stm & s) { switch (s.k) { case 'i': return true; case 'j': return open(s.kids[1]); case 'w': case 'f': case 'v': case 'L': return open(s.kids[0]); default: return false; } }
    static bool has(const std::vector<Stm> & l, char k) { for (auto & s : l) if (s.k == k) return true; return false; }
    const std::vector<Stm> & stm(int n, int cx) {
        auto key_ = std::make_pair(n, cx); auto it = sm.find(key_); if (it != sm.end()) return it->second;
        std::vector<Stm> r; auto leaf = [&](char k) { if (on(k)) r.push_back(Stm{k, {}, {}}); };
        if (n == 1) {
            leaf('a'); leaf('u'); leaf('T'); leaf('e'); leaf('r'); leaf('g'); leaf('x');
            if (cx & BLOCK) { leaf('d'); leaf('m'); leaf('P'); leaf('H'); leaf('K'); leaf('M'); leaf('N'); if ((cx & NESTED)) leaf('s'); }
            if (cx & BREAK) leaf('b'); if (cx & LOOP) leaf('c');
            if (on('{')) r.push_back(Stm{'{', {}, {{}}});
        } else {
            int in = (cx & (LOOP | BREAK)) | NESTED;
            if (on('{')) for (auto & l : lists(n - 1, in | BLOCK)) r.push_back(Stm{'{', {}, {l}});
            if (on('i')) for (auto & s : stm(n - 1, in)) r.push_back(Stm{'i', {s}, {}});
            for (char k : {'w', 'o', 'f', 'v'}) if (on(k)) for (auto & s : stm(n - 1, in | LOOP | BREAK)) r.push_back(Stm{k, {s}, {}});
            if (on('L')) for (auto & s : stm(n - 1, in)) r.push_back(Stm{'L', {s}, {}});
            if (on('j')) for (int m = 1; m < n - 1; m++) for (auto & s : stm(m, in)) if (!open(s)) for (auto & t : stm(n - 1 - m, in)) r.push_back(Stm{'j', {s, t}, {}});
            // declarations right after a case label are not C
            if (on('z')) for (int m = 0; m <= n - 1; m++) for (auto & s : lists(m, in | BREAK)) for (auto & t : lists(n - 1 - m, in | BREAK)) if (!(t.empty() && n > 2)) r.push_back(Stm{'z', {}, {s, t}});
            if (cx & BLOCK) {
                int bl = cx & ~HAD_S;
                for (char k : {'D', 'F'}) if (on(k)) for (auto & s : lists(n - 1, bl)) r.push_back(Stm{k, {}, {s}});
                if (on('E')) for (int m = 1; m < n - 1; m++) for (auto & s : lists(m, bl)) for (auto & t : lists(n - 1 - m, bl)) r.push_back(Stm{'E', {}, {s, t}});
            }
        }
        return sm[key_] = r;
    }
    const std::vector<std::vector<Stm> > & lists(int n, int cx) {
        auto key_ = std::make_pair(n, cx); auto it = lm.find(key_); if (it != lm.end()) return it->second;
        std::vector<std::vector<Stm> > r;
        if (n == 0) r.push_back({});
        for (int m = 1; m <= n; m++) for (auto & s : stm(m, cx)) for (auto & t : lists(n - m, cx)) { if (s.k == 's' && has(t, 's')) continue; std::vector<Stm> l = {s}; l.insert(l.end(), t.begin(), t.end()); r.push_back(l); }
        return lm[key_] = r;
    }
};
static inline std::string show(const Stm & s) { std::string o(1, s.k); if (!s.kids.empty()) { o += '('; for (auto & x : s.kids) o += show(x); o += ')'; } for (auto & l : s.lists) { o += '['; for (auto & x : l) o += show(x); o += ']'; } return o; }
static inline std::string show(const std::vector<Stm> & l) { std::string o; for (auto & s : l) o += show(s); return o; }
static inline bool uses(const std::vector<Stm> & l, char k) { for (auto & s : l) { if (s.k == k || uses(s.kids, k)) return true; for (auto & m : s.lists) if (uses(m, k)) return true; } return false; }

// ---- types --------------------------------------------------------------
struct Type { std::vector<std::pair<std::string, std::string> > spec; std::string ptr; std::vector<std::string> dims; std::string init, format; unsigned size; int how; };
// how: 0 compare the value, 1 an address, 2 C string, 3 C++ string
static inline const std::vector<Type> & types() {
    typedef std::vector<std::pair<std::string, std::string> > Sp;
    auto prim = [](const char *n) { return std::make_pair(std::string("c/cpp-primitive-type"), std::string(n)); }; auto id = [](const char *n) { return std::make_pair(std::string("c/cpp-type-identifier"), std::string(n)); };
    auto mod = [](const char *n) { return std::make_pair(std::string("c/cpp-") + n, std::string(n)); }; auto qu = [](const char *n) { return std::make_pair(std::string("c/cpp-type-qualifier"), std::string(n)); }; auto st = [](const char *n) { return std::make_pair(std::string("c/cpp-storage-class-specifier"), std::string(n)); };
    static std::vector<Type> t = {
        {Sp{prim("int")}, "", {}, "x - 7", "S", 4, 0}, {Sp{prim("char")}, "", {}, "-x - 100", "S", 1, 0}, {Sp{mod("unsigned"), prim("char")}, "", {}, "x + 200", "U", 1, 0}, {Sp{mod("short"), prim("int")}, "", {}, "-x - 30000", "S", 2, 0},
        {Sp{mod("unsigned"), mod("short"), prim("int")}, "", {}, "x + 60000", "U", 2, 0}, {Sp{mod("unsigned"), prim("int")}, "", {}, "x + 4000000000u", "U", 4, 0}, {Sp{mod("long"), prim("int")}, "", {}, "-x - 0x123456789abcl", "S", 8, 0}, {Sp{mod("unsigned"), mod("long"), prim("int")}, "", {}, "x + 0xfedcba9876543210ul", "U", 8, 0},
        {Sp{prim("float")}, "", {}, "x / 3.0f", "F", 4, 0}, {Sp{prim("double")}, "", {}, "x / 3.0", "F", 8, 0}, {Sp{prim("void")}, "*", {}, "(void *) (0x7f0000001234 + (long) x)", "P", 8, 0}, {Sp{prim("int")}, "*", {}, "(int *) (0x7f0000001234 + (long) x)", "P", 8, 0}, {Sp{prim("char")}, "*", {}, "words[x & 3]", "P", 8, 2},
        {Sp{id("size_t")}, "", {}, "x + 5", "U", 8, 0}, {Sp{id("int8_t")}, "", {}, "-x - 5", "S", 1, 0}, {Sp{id("uint8_t")}, "", {}, "x + 250", "U", 1, 0}, {Sp{id("int16_t")}, "", {}, "-x - 300", "S", 2, 0}, {Sp{id("uint16_t")}, "", {}, "x + 65000", "U", 2, 0}, {Sp{id("int32_t")}, "", {}, "-x - 70000", "S", 4, 0}, {Sp{id("uint32_t")}, "", {}, "x + 4000000000u", "U", 4, 0}, {Sp{id("int64_t")}, "", {}, "-x - 0x1234567890l", "S", 8, 0}, {Sp{id("uint64_t")}, "", {}, "x + 0x8000000000000000ul", "U", 8, 0}, {Sp{id("wchar_t")}, "", {}, "x + 0x10000", "S", 4, 0},
        {Sp{qu("const"), prim("int")}, "", {}, "x + 3", "S", 4, 0}, {Sp{st("static"), mod("unsigned"), prim("int")}, "", {}, "11", "U", 4, 0}, {Sp{st("register"), qu("volatile"), prim("char")}, "", {}, "x", "S", 1, 0}, {Sp{prim("int")}, "", {"3"}, "{1, 2, 3}", "P", 8, 1}, {Sp{prim("char")}, "", {"4"}, "\"xyz\"", "P", 8, 2}, {Sp{prim("char")}, "", {"DIM"}, "\"q\"", "P", 8, 2},
        {Sp{prim("char")}, "**", {}, "(char **) words", "P", 8, 1}, {Sp{prim("char")}, "*", {"4"}, "{\"a\", 0}", "P", 8, 1}, {Sp{prim("char")}, "", {"2", "3"}, "{\"ab\", \"cd\"}", "P", 8, 1}, {Sp{qu("const"), prim("char")}, "*", {}, "words[(x + 1) & 3]", "P", 8, 2}, {Sp{mod("unsigned"), prim("char")}, "*", {}, "(unsigned char *) words[0]", "P", 8, 1},
        {Sp{id("struct pair")}, "", {}, "{1, 2}", "-", 0, 0}, {Sp{id("struct pair")}, "*", {}, "(struct pair *) (0x7f0000000000 + (long) x)", "P", 8, 0}, {Sp{mod("long"), prim("double")}, "", {}, "x / 7.0L", "-", 0, 0},
        {Sp{id("std::string")}, "", {}, "std::string(\"c\\0d\", x & 3)", "-", 0, 3},
    };
    return t;
}
static inline std::string trace_name(const Type & t) { std::string s = t.ptr; for (auto & d : t.dims) s += isdigit(d[0]) ? "[" + d + "]" : "[]"; for (size_t i = 0; i < t.spec.size(); i++) s += (i ? " " : "") + t.spec[i].second; return s; }
static inline V canonical(const Type & t) {
    Args sp, de; for (auto & x : t.spec) sp.push_back(sel::node(x.first, {str(x.second)}));
    for (size_t i = 0; i < t.ptr.size(); i++) de.push_back(list({key("pointer")}));
    for (auto & d : t.dims) de.push_back(list({key("array"), sel::node(isdigit(d[0]) ? "c/cpp-number-literal" : "c/cpp-identifier", {str(d)})}));
    return sel::call("make-instance", {cl::sym("c/cpp-canonical-type"), key("declarator"), list(de), key("specifier"), list(sp)});
}

// ---- programs -----------------------------------------------------------
struct Var { std::string name; int type; V decl, scope; bool skip; };       // skip: nothing that can be recorded
struct Info { bool optional; std::vector<Var> before, after; std::string where; };
enum { FUNCTIONS = 1, AFTER = 2, FILTER = 4, STRINGS = 8, CPP = 16, PARTIAL = 32, BARE = 64, MIXED = 128, NEXT = 256, LAST = 512, SUBSET = 1024 };  // NEXT, LAST: with FILTER, leave other statements out; SUBSET: leave those of a bit set out (bits 11 and up)      // MIXED: no strings after statements; BARE: no variables at every other statement
static inline bool in_set(char k, const char *s) { return strchr(s, k) != NULL; }
static inline V T(const std::string & s) { return str(s); }
static inline V N(const char *c, const Args & p) { return sel::node(c, p); }
static inline V expr(const std::string & t) { return N("c/cpp-assignment-expression", {T(t)}); }
static inline V become(V me, V n) { for (auto & x : ((cl::Inst *) n)->s) if (x.first != sel::sy().serial) sel::put(me, x.first, x.second); return me; }
struct Program {
    int mode, k, base; V root, now; Args top; std::string ref, where; std::map<long, Info> at; std::map<long, int> nth; std::vector<std::vector<Var> > scopes; std::vector<V> scope_node; std::map<uint64_t, long> by_id; bool has_main, sparse; std::string prefix;
    explicit Program(int m) : mode(m), k(0), base(0), now(NULL), has_main(false), sparse(false), prefix("v") { root = N("c/cpp-translation-unit", {}); scopes.push_back({}); scope_node.push_back(root); }
    std::vector<Var> visible() {
        std::vector<Var> r; std::set<std::string> seen;
        for (size_t i = scopes.size(); i-- > 0;) for (size_t j = scopes[i].size(); j-- > 0;) { Var & v = scopes[i][j]; if (v.skip || seen.insert(v.name).second) r.push_back(v); }
        std::reverse(r.begin(), r.end()); return r;
    }
    const Type & type(const Var & v) { return types()[v.type]; }
    bool blob(const Type & t, bool after) { return (mode & STRINGS) && !(after && (mode & MIXED)) && t.how >= 2; }
    std::string values(const std::vector<Var> & vs, bool after) {
        std::string o;
        for (auto & v : vs) {
            if (v.skip) continue; const Type & t = type(v); std::string h = "(\"" + v.name + "\", \"" + trace_name(t) + "\", ";
            if (blob(t, after)) o += (t.how == 3 ? "REF_T" : "REF_S") + h + v.name + "); "; else if (t.format == "-") continue; else if (t.how) o += "REF_A" + h + v.name + "); "; else o += "REF_V" + h + "'" + t.format + "', " + v.name + "); ";
        }
        return o;
    }
    std::string mark(V n, bool before) { Info & i = at[sel::serial(n)]; return mc::strf("\nREF_P(@%ld@); ", sel::serial(n)) + (!before ? values(i.after, true) : mode & FUNCTIONS ? values(i.before, false) : "") + "REF_E();\n"; }
    static bool leave_out(V n, int mode) { return (mode & FILTER) && (sel::serial(n) + (mode & NEXT ? 1 : mode & LAST ? 2 : 0)) % 3 == 0; }
    bool filtered(V n) { if (mode & SUBSET) { auto i = nth.find(sel::serial(n)); return i != nth.end() && (mode >> (11 + (i->second - 1) % 5) & 1); } return leave_out(n, mode); }
    std::string traced(V n, const std::string & tx, bool optional, bool hanging, const std::vector<Var> & before) {
        Info & i = at[sel::serial(n)]; i.optional = optional; i.before = before; i.after = visible(); i.where = where; if ((sparse && tx != "return x;") || ((mode & BARE) && sel::serial(n) % 2)) i.before = i.after = std::vector<Var>();
        std::string o = filtered(n) ? tx : mark(n, true) + tx + (mode & AFTER ? mark(n, false) : "");
        return hanging ? "{" + o + "}" : o;
    }
    void also(V n) { Info & i = at[sel::serial(n)]; i.optional = true; i.where = where; i.before = i.after = (mode & BARE) && sel::serial(n) % 2 ? std::vector<Var>() : visible(); }
    void declare(const std::string & name, int ty, V decl, bool skip = false) { scopes.back().push_back(Var{name, ty, decl, scope_node.back(), skip}); }
    int next_type() { return (base + k) % ((int) types().size() - (mode & CPP ? 0 : 1)); }
    V declaration(const std::string & name, int ty, const std::string & init, std::string & text) {
        const Type & t = types()[ty]; Args p; text = "";
        for (auto & x : t.spec) { p.push_back(N(x.first.c_str(), {T(x.second)})); p.push_back(T(" ")); text += x.second + " "; }
        std::string d = t.ptr + name; for (auto & x : t.dims) d += "[" + x + "]"; d += " = " + init;
        V de = N("c/cpp-init-declarator", {T(d)}); sel::put(de, sel::sy().name, str(name)); p.push_back(de); p.push_back(T(";")); text += d + ";";
        V n = N("c/cpp-declaration", p); sel::put(n, sel::sy().types, list({cons(str(name), canonical(t))}));
        return n;
    }
    // the statements of L, as children of a node
    // statements that the instrumenter may leave out, because the text before or after them may belong to them: see possibly-incomplete-ast-p
    static bool partial(const Stm & s) { return s.k == 'E' || s.k == 'N' || ((s.k == 'D' || s.k == 'F') && (s.lists[0].empty() || in_set(s.lists[0].back().k, "PHDFEN"))); }
    void seq(const std::vector<Stm> & l, Args & p, std::string & out, bool optional = false) {
        for (size_t i = 0; i < l.size(); i++) {
            if (in_set(l[i].k, "PHKDFE")) { p.push_back(T("\n")); out += "\n"; }
            for (V n : stm(l[i], false, out, optional || (i + 1 < l.size() && l[i + 1].k == 'M') || (i && partial(l[i - 1])))) p.push_back(n);
            p.push_back(T(in_set(l[i].k, "DFE") ? "\n" : " ")); out += in_set(l[i].k, "DFE") ? "\n" : " ";
        }
    }
    V block(const std::vector<Stm> & l, std::string & out, bool optional = false) {
        V me = N("c/cpp-compound-statement", {}); scopes.push_back({}); scope_node.push_back(me);
        Args p = {T("{ ")}; out += "{ "; seq(l, p, out, optional); p.push_back(T("}")); out += "}";
        scopes.pop_back(); scope_node.pop_back(); return become(me, N("c/cpp-compound-statement", p));
    }
    V part(const char *cls, const std::string & open, const std::vector<Stm> & l, std::string & out, bool id = false, bool optional = false) { Args p = {T(open)}; if (id) p.push_back(N("c/cpp-identifier", {T("")})); out += open; seq(l, p, out, optional); return N(cls, p); }
    std::vector<V> stm(const Stm & s, bool hanging, std::string & out, bool optional = false) {
        std::vector<Var> before = visible(); std::string tx; V n = NULL; k++; bool opt = optional, point = true; const std::string c = mc::strf("(a >> %d) & 1", k & 1); int me = k;
        auto sub = [&](const Stm & x, std::string & o) { return stm(x, true, o)[0]; };
        auto simple = [&](const std::string & t) { tx = t; n = N("c/cpp-expression-statement", {expr(t.substr(0, t.size() - 1)), T(";")}); };
        switch (s.k) {
        case 'a': simple(mc::strf("x = x * 3 + %d;", me)); break;
        case 'u': simple(mc::strf("elsewhere = elsewhere * 5 + (int) x + %d;", me)); break;
        case 'T': simple(mc::strf("x = x * 7 + %d;", me)); sel::put(n, sel::sy().before, list({N("c/cpp-comment", {T("/* else */ ")}), N("c/cpp-comment", {T("// here\n")})})); break;
        case 'x': simple("leave(a);"); break;
        case 'd': { int ty = next_type(); std::string nm = mc::strf("%s%d", prefix.c_str(), me); n = declaration(nm, ty, types()[ty].init, tx); declare(nm, ty, n); break; }
        case 'm': { std::string nm = mc::strf("p%d", me); V d[3]; const char *f[3] = {"m%d = x - 7", "*n%d = (int *) 0x7f0000000010", "o%d[3] = {1, 2, 3}"}; Args al, ps = {N("c/cpp-primitive-type", {T("int")}), T(" ")}; tx = "int ";
            int ty[3] = {0, 11, 26}; std::string nms[3];
            for (int i = 0; i < 3; i++) { std::string t = mc::strf(f[i], me); nms[i] = mc::strf("%c%d", "mno"[i], me); d[i] = N("c/cpp-init-declarator", {T(t)}); sel::put(d[i], sel::sy().name, str(nms[i])); al.push_back(cons(str(nms[i]), canonical(types()[ty[i]]))); if (i) { ps.push_back(T(", ")); tx += ", "; } ps.push_back(d[i]); tx += t; }
            ps.push_back(T(";")); tx += ";"; n = N("c/cpp-declaration", ps); sel::put(n, sel::sy().types, list(al)); for (int i = 0; i < 3; i++) declare(nms[i], ty[i], n); break; }
        case 's': n = declaration("x", 6, "a + 0x100000000l", tx); declare("x", 6, n); break;
        case 'e': tx = ";"; n = N("c/cpp-expression-statement", {T(";")}); if (hanging) opt = true; else point = false; break;
        case 'r': tx = "return x;"; n = N("c/cpp-return-statement", {T("return "), expr("x"), T(";")}); break;
        case 'b': tx = "break;"; n = N("c/cpp-break-statement", {T(tx)}); break;
        case 'c': tx = "continue;"; n = N("c/cpp-continue-statement", {T(tx)}); break;
        case 'g': tx = "goto end;"; n = N("c/cpp-goto-statement", {T(tx)}); break;
        case 'P': tx = mc::strf("#define ZZ%d 1\n", me); n = N("c/cpp-preproc-def", {T(tx)}); opt = true; break;
        case 'H': tx = "#include \"frag.h\"\n"; n = N("c/cpp-preproc-include", {T(tx)}); opt = true; break;
        case 'K': { V m = N("c/cpp-preproc-ifdef", {T("#ifdef QUALIFY\n"), N("c/cpp-identifier", {T("")}), N("c/cpp-error", {N("c/cpp-type-qualifier", {T("const")})}), T("\n#endif\n")}); out += "#ifdef QUALIFY\nconst\n#endif\n";
            n = declaration(mc::strf("y%d", me), 0, "x", tx); also(n); declare(mc::strf("y%d", me), 0, n); out += tx; return {m, n}; }
        case 'M': { V m = N("c/cpp-error", {T("WHEN ")}); simple(mc::strf("x = x * 3 + %d;", me)); out += "WHEN " + traced(n, tx, true, true, before); return {m, n}; }
        case 'N': { V m = N("c/cpp-error", {T(" ANDTWO;")}); tx = mc::strf("x = x * 3 + %d", me); n = N("c/cpp-expression-statement", {expr(tx)}); tx += " ANDTWO;"; out += traced(n, tx, true, false, before); return {n, m}; }
        case '{': n = block(s.lists[0], tx, optional); point = false; break;
        case 'i': { V b = sub(s.kids[0], tx); n = sel::role(N("c/cpp-if-statement", {T("if ("), expr(c), T(") "), b}), "consequence", 1); tx = "if (" + c + ") " + tx; break; }
        case 'j': { std::string t2; V b = sub(s.kids[0], tx), e = sub(s.kids[1], t2); n = sel::role(sel::role(N("c/cpp-if-statement", {T("if ("), expr(c), T(") "), b, T(" else "), e}), "consequence", 1), "alternative", 2); tx = "if (" + c + ") " + tx + " else " + t2; break; }
        case 'w': { V b = sub(s.kids[0], tx); n = sel::role(N("c/cpp-while-statement", {T("while ("), expr("n++ < 2"), T(") "), b}), "body", 1); tx = "while (n++ < 2) " + tx; break; }
        case 'o': { V b = sub(s.kids[0], tx); n = sel::role(N("c/cpp-do-statement", {T("do "), b, T(" while ("), expr("n++ < 2"), T(");")}), "body", 0); tx = "do " + tx + " while (n++ < 2);"; break; }
        case 'f': { std::string iv = mc::strf("i%d", me), t = iv + " < 2", u = iv + "++"; V d = N("c/cpp-declaration", {N("c/cpp-primitive-type", {T("int")}), T(" " + iv + " = 0;")}); V b = sub(s.kids[0], tx); n = sel::role(N("c/cpp-for-statement", {T("for ("), d, T(" "), expr(t), T("; "), expr(u), T(") "), b}), "body", 3); tx = "for (int " + iv + " = 0; " + t + "; " + u + ") " + tx; break; }
        case 'v': { V b = sub(s.kids[0], tx); n = sel::role(N("c/cpp-for-statement", {T("for (; "), expr("n < 2"), T("; "), expr("n++"), T(") "), b}), "body", 2); tx = "for (; n < 2; n++) " + tx; break; }
        case 'z': { std::string t1, t2; const std::vector<Stm> none = {Stm{'e', {}, {}}}; V c0 = part("c/cpp-case-statement", "case 1: ", s.lists[0], t1), c1 = part("c/cpp-case-statement", "default: ", s.lists[1].empty() ? none : s.lists[1], t2);
            V b = N("c/cpp-compound-statement", {T("{ "), c0, T(" "), c1, T("}")}); n = sel::role(N("c/cpp-switch-statement", {T("switch ("), expr("a"), T(") "), b}), "body", 1); tx = "switch (a) { " + t1 + " " + t2 + "}"; break; }
        case 'L': { V in = stm(s.kids[0], false, tx, optional)[0]; std::string lb = mc::strf("L%d", me); n = N("c/cpp-labeled-statement", {N("c/cpp-identifier", {T(lb)}), T(": "), in}); tx = lb + ": ;" + tx; if (hanging) opt = true; else point = false; break; }
        case 'D': case 'F': { auto sc = scopes; n = part(s.k == 'D' ? "c/cpp-preproc-ifdef" : "c/cpp-preproc-if", s.k == 'D' ? "#ifdef YES\n" : "#if 0\n", s.lists[0], tx, true, optional); if (s.k == 'F') scopes = sc;
            n = close(n); tx += "\n#endif"; point = false; break; }
        case 'E': { auto sc = scopes; std::string t2; n = part("c/cpp-preproc-ifdef", "#ifndef YES\n", s.lists[0], tx, true, optional); scopes = sc; tx += "\n"; V e = part("c/cpp-preproc-else", "#else\n", s.lists[1], t2, false, partial(s.lists[0].back())); n = close(n, e); tx += t2 + "\n#endif"; point = false; break; }
        default: abort();
        }
        nth[sel::serial(n)] = me; out += point ? traced(n, tx, opt, hanging, before) : tx;
        return {n};
    }
    // ends a preprocessor node: [else part] #endif
    V close(V n, V last = NULL) {
        Args tx = ((cl::Vec *) sel::get(n, sel::sy().text))->v, kids = cl::items(sel::get(n, sel::sy().children));
        if (last) { kids.push_back(last); tx.back() = str(cl::text(tx.back()) + "\n"); tx.push_back(str("\n#endif")); } else tx.back() = str(cl::text(tx.back()) + "\n#endif");
        sel::put(n, sel::sy().text, cl::vec(tx)); sel::put(n, sel::sy().children, list(kids)); return n;
    }
    // ---- top level
    void text(const std::string & t, const char *cls = "c/cpp-preproc-include") { top.push_back(N(cls, {T(t)})); ref += t; }
    void global(const std::string & name, int ty) { std::string t; V n = declaration(name, ty, "5", t); top.push_back(n); top.push_back(T("\n")); ref += t + "\n"; declare(name, ty, n); }
    void enumeration() { V e = N("c/cpp-enumerator", {T("BLUE")}); top.push_back(N("c/cpp-declaration", {T("enum hue { "), e, T(" };")})); top.push_back(T("\n")); ref += "enum hue { BLUE };\n"; declare("BLUE", 0, e, true); sel::put(e, sel::sy().types, list({cons(str("BLUE"), canonical(types()[0]))})); }
    // a function around the statements of BODY
    void function(const std::string & name, const std::vector<Stm> & body, bool is_static = false) {
        where = name + " " + show(body); bool jumps = uses(body, 'g'); V def = N("c/cpp-function-definition", {});
        auto param = [&](const Args & p, const std::string & nm, int ty) { V n = N("c/cpp-parameter-declaration", p); sel::put(n, sel::sy().types, list({cons(str(nm), canonical(types()[ty]))})); return n; };
        V a = param({N("c/cpp-primitive-type", {T("int")}), T(" "), N("c/cpp-identifier", {T("a")})}, "a", 0), q = param({N("c/cpp-primitive-type", {T("int")}), T(" "), N("c/cpp-identifier", {T("q")})}, "q", 0);
        V cb = param({N("c/cpp-primitive-type", {T("int")}), T(" "), N("c/cpp-function-declarator", {N("c/cpp-parenthesized-declarator", {T("(*cb)")}), N("c/cpp-parameter-list", {T("("), q, T(")")})})}, "cb", 0);
        V fd = N("c/cpp-function-declarator", {N("c/cpp-identifier", {T(name)}), N("c/cpp-parameter-list", {T("("), a, T(", "), cb, T(")")})}); sel::put(fd, sel::sy().name, str(name));
        scopes.push_back({}); scope_node.push_back(def); declare("a", 0, a); declare("q", 0, q, true); declare("", 0, a, true); declare("a.b", 0, a, true); declare("__attribute__", 0, a, true);
        V bd = N("c/cpp-compound-statement", {}); scopes.push_back({}); scope_node.push_back(bd); std::string out = "{ "; Args p = {T("{ ")};
        for (const char *v : {"x", "n"}) { std::vector<Var> bf = visible(); std::string t; V d = declaration(v, 0, *v == 'x' ? "a" : "0", t); declare(v, 0, d); p.push_back(d); p.push_back(T(" ")); out += traced(d, t, !body.empty() && body[0].k == 'M' && *v == 'n' && !jumps, false, bf) + " "; }
        if (jumps) { std::string t; V b = block(body, t); p.push_back(b); p.push_back(T(" ")); out += t + " "; } else seq(body, p, out);
        std::string lt = "x = x + 7;"; V e = N("c/cpp-expression-statement", {expr("x = x + 7"), T(";")}); std::vector<Var> bf = visible(); std::string lr = traced(e, lt, !jumps && !body.empty() && partial(body.back()), false, bf);
        V l = jumps ? N("c/cpp-labeled-statement", {N("c/cpp-identifier", {T("end")}), T(": "), e}) : e; p.push_back(l); p.push_back(T(" ")); out += (jumps ? "end: ;" : "") + lr + " ";
        V rt = N("c/cpp-return-statement", {T("return "), expr("x"), T(";")}); p.push_back(rt); p.push_back(T(" }")); out += traced(rt, "return x;", false, false, bf) + " }";
        scopes.pop_back(); scope_node.pop_back(); become(bd, N("c/cpp-compound-statement", p)); scopes.pop_back(); scope_node.pop_back();
        Args dp; if (is_static) { dp.push_back(N("c/cpp-storage-class-specifier", {T("static")})); dp.push_back(T(" ")); } for (V x : {N("c/cpp-primitive-type", {T("int")}), T(" "), fd, T(" "), bd}) dp.push_back(x);
        become(def, N("c/cpp-function-definition", dp)); sel::put(def, sel::sy().name, str(name));
        top.push_back(def); top.push_back(T("\n")); ref += std::string(is_static ? "static " : "") + "int " + name + "(int a, int (*cb)(int q)) " + out + "\n"; k = 0;
    }
    void main_(const std::vector<std::string> & calls, const std::string & result = "return 3;") {
        where = "main"; has_main = true; V def = N("c/cpp-function-definition", {}); V argc = N("c/cpp-parameter-declaration", {N("c/cpp-primitive-type", {T("int")}), T(" argc")}); sel::put(argc, sel::sy().types, list({cons(str("argc"), canonical(types()[0]))}));
        V fd = N("c/cpp-function-declarator", {N("c/cpp-identifier", {T("main")}), N("c/cpp-parameter-list", {T("("), argc, T(", char **argv)")})}); sel::put(fd, sel::sy().name, str("main"));
        scopes.push_back({}); scope_node.push_back(def); declare("argc", 0, argc); std::string out = "{ "; Args p = {T("{ ")};
        for (auto & f : calls) {
            std::string cl_ = "run(" + std::to_string(k) + ", " + f + "(a, same));"; k++;
            std::vector<Var> bf = visible(); V b = N("c/cpp-expression-statement", {expr(cl_.substr(0, cl_.size() - 1)), T(";")}); std::string t = traced(b, cl_, false, true, bf);
            V d = N("c/cpp-declaration", {N("c/cpp-primitive-type", {T("int")}), T(" a = 0;")}); V fo = sel::role(N("c/cpp-for-statement", {T("for ("), d, T(" "), expr("a < 4"), T("; "), expr("a++"), T(") "), b}), "body", 3);
            out += traced(fo, "for (int a = 0; a < 4; a++) " + t, false, false, bf) + "\n"; p.push_back(fo); p.push_back(T("\n"));
        }
        V rt = N("c/cpp-return-statement", {T(result)}); out += traced(rt, result, false, false, visible()) + " }"; p.push_back(rt); p.push_back(T(" }"));
        scopes.pop_back(); scope_node.pop_back(); V bd = N("c/cpp-compound-statement", p); become(def, N("c/cpp-function-definition", {N("c/cpp-primitive-type", {T("int")}), T(" "), fd, T(" "), bd})); sel::put(def, sel::sy().name, str("main"));
        top.push_back(def); top.push_back(T("\n")); ref += "int main(int argc, char **argv) " + out + "\n"; k = 0;
    }
    // the tree is complete: numbers the statements. FILE: its number in a project, or -1
    void finish(long file = -1) {
        become(root, N("c/cpp-translation-unit", top)); auto & o = sel::index_of(root).order; std::map<long, uint64_t> id; uint64_t b = file < 0 ? 0 : 1ull << 63 | (uint64_t) file << 40;
        for (size_t i = 1; i < o.size(); i++) { id[sel::serial(o[i])] = b + i - 1; by_id[b + i - 1] = sel::serial(o[i]); }
        std::string r; for (size_t i = 0; i < ref.size(); i++) { if (ref[i] == '@' && i + 1 < ref.size() && isdigit(ref[i + 1])) { size_t j = ref.find('@', i + 1); r += std::to_string(id.at(atol(ref.c_str() + i + 1))) + "ull"; i = j; } else r += ref[i]; }
        ref = r;
    }
    // ---- instrumenting
    V key_function(bool after) {
        Program *me = this;
        return cl::native([me, after](Args & a) -> V {
            cl::arity(a, 1, 1); Args r; auto i = me->at.find(sel::serial(a[0])); if (i == me->at.end()) return nil();
            for (auto & v : after ? i->second.after : i->second.before) r.push_back(list({cons(key("name"), str(v.name)), cons(key("decl"), me->now ? sel::place(me->now, v.decl).n : v.decl), cons(key("scope"), me->now ? sel::place(me->now, v.scope).n : v.scope)}));
            return list(r); });
    }
    Args options() {
        Args o; auto fun = [&](bool after) { V kf = key_function(after); bool st = (mode & STRINGS) && !(after && (mode & MIXED)); return cl::native([kf, st](Args & a) -> V { cl::arity(a, 2, 2); Args b = {kf, a[0], a[1]}; if (st) { b.push_back(key("print-strings")); b.push_back(cl::tee()); } return sel::call("var-instrument", b); }); };
        if (mode & FUNCTIONS) { o.push_back(key("functions")); o.push_back(list({fun(false)})); }
        if (mode & AFTER) { o.push_back(key("functions-after")); o.push_back(list({fun(true)})); }
        if (mode & (FILTER | SUBSET)) { o.push_back(key("filter")); Program *me = this; o.push_back(cl::native([me](Args & a) -> V { cl::arity(a, 2, 2); return cl::boolean(!me->filtered(a[1])); })); }
        return o;
    }
    V object() { return sel::call("make-instance", {cl::sym(mode & CPP ? "cpp" : "c"), key("genome"), root}); }
};

// ---- compiling and running ---------------------------------------------
static inline void spit(const std::string & f, const std::string & t) { std::ofstream o(f.c_str(), std::ios::binary); o << t; }
static inline std::string slurp(const std::string & f) { std::ifstream i(f.c_str(), std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
struct Outcome { int status; std::string out; };
// runs ARGV in DIR; at most SECONDS
static inline int spawn(const std::string & dir, const std::vector<std::string> & argv, const std::string & out, const std::string & err, const std::vector<std::string> & env = {}, int seconds = 60) {
    pid_t p = fork();
    if (p == 0) {
        if (chdir(dir.c_str())) _exit(126);
        int o = open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), e = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), i = open("/dev/null", O_RDONLY); dup2(i, 0); dup2(o, 1); dup2(e, 2);
        struct rlimit l = { 1 << 26, 1 << 26 }; setrlimit(RLIMIT_FSIZE, &l); struct rlimit c = { 0, 0 }; setrlimit(RLIMIT_CORE, &c); struct rlimit t = { (rlim_t) seconds, (rlim_t) seconds }; setrlimit(RLIMIT_CPU, &t);
        for (int s : {SIGPIPE, SIGCHLD}) signal(s, SIG_DFL);
        for (auto & x : env) putenv(strdup(x.c_str()));
        std::vector<char *> v; for (auto & x : argv) v.push_back((char *) x.c_str()); v.push_back(NULL); alarm(seconds); execvp(v[0], v.data()); _exit(127);
    }
    int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} return st;
}
static inline const char *run_h() { return
"#ifndef RUN_H\n#define RUN_H\n#include <stdio.h>\n#include <stdlib.h>\n#include <stdint.h>\n#include <stddef.h>\n#include <string.h>\n#include <signal.h>\n#include <unistd.h>\n"
"#ifdef __cplusplus\n#include <string>\n#endif\n#define YES 1\n#define DIM 3\n#define WHEN if (a & 1)\n#define ANDTWO + 2\nstruct pair { int l, r; };\n"
"static char *words[4] = { (char *) \"w0\", (char *) \"\", (char *) \"x\\\"y\\\\\", 0 };\nstatic int elsewhere;\n"
"static void run(int k, int v) { if (!getenv(\"QUIET\")) printf(\"%d %d %d\\n\", k, v, elsewhere); }\n"
"static int same(int q) { return q; }\n"
"static void leave(int a) { int HOW = getenv(\"HOW\") ? atoi(getenv(\"HOW\")) : 0; fflush(stdout); if (HOW == 1) exit(7 + a); if (HOW == 2) _exit(9 + a); if (HOW == 3) abort(); if (HOW == 4) raise(9); if (HOW == 5) *(volatile int *) 0 = 1; }\n#endif\n"; }
static inline const char *ref_h() { return
"#include <stdio.h>\n#include <string.h>\n#ifdef __cplusplus\n#include <string>\n#endif\nstatic FILE *ref_file;\nstatic void ref_open(void) { if (!ref_file) ref_file = fopen(REF, \"a\"); }\n"
"static void ref_id(unsigned long long id) { ref_open(); fprintf(ref_file, \"P %llu\\n\", id); }\n"
"static void ref_hex(const char *k, const char *n, const char *t, char f, const void *p, unsigned long s) { const unsigned char *b = (const unsigned char *) p; unsigned long i; ref_open(); fprintf(ref_file, \"%s %s|%s|%c|\", k, n, t, f); for (i = 0; i < s; i++) fprintf(ref_file, \"%02x\", b[i]); fprintf(ref_file, \"\\n\"); }\n"
"#define REF_P(i) ref_id(i)\n#define REF_V(n, t, f, v) { __typeof__((v)) ref_ = (v); ref_hex(\"V\", n, t, f, (const void *) &ref_, sizeof ref_); }\n"
"#define REF_A(n, t, v) ref_hex(\"A\", n, t, 'P', \"\", 0)\n#define REF_S(n, t, v) { const char *ref_ = (v); ref_hex(\"S\", n, t, 'B', ref_ ? ref_ : \"\", ref_ ? strlen(ref_) : 0); }\n"
"#define REF_T(n, t, v) ref_hex(\"S\", n, t, 'B', (v).data(), (v).size())\n#define REF_E() fflush(ref_file)\n"; }
struct Machine {
    std::string dir; int n;
    explicit Machine(mc::Ctx & c) : dir(c.scratch + "/w"), n(0) { mkdir(dir.c_str(), 0700); spit(dir + "/run.h", run_h()); spit(dir + "/ref.h", ref_h()); spit(dir + "/frag.h", "x = x + 5;\n"); }
    static bool cpp(int mode) { return mode & CPP; }
    // the program: its name, or "" if it does not compile (ERR says why)
    std::string build(const std::vector<std::string> & texts, int mode, const std::vector<std::string> & flags, std::string & err) {
        std::string nm = mc::strf("p%d", n++); std::vector<std::string> v = {cpp(mode) ? "g++" : "gcc", "-O0", "-w", "-I."}; if (cpp(mode)) { v.push_back("-fpermissive"); v.push_back("-std=gnu++14"); }
        v.push_back("-o"); v.push_back(nm); if (mode & PARTIAL) v.push_back("-DQUALIFY");
        for (auto & f : flags) if (f[0] == '-' && f[1] == 'D') v.push_back(f);
        for (size_t i = 0; i < texts.size(); i++) { std::string f = nm + "_" + std::to_string(i) + (cpp(mode) ? ".cpp" : ".c"); spit(dir + "/" + f, texts[i]); v.push_back(f); }
        for (auto & f : flags) if (!(f[0] == '-' && f[1] == 'D')) v.push_back(f);
        int st = spawn(dir, v, "cc.out", "cc.err"); if (st != 0) { err = slurp(dir + "/cc.err").substr(0, 600); return ""; } return nm;
    }
    Outcome run(const std::string & p, const std::vector<std::string> & env = {}) { Outcome o; o.status = spawn(dir, {"./" + p}, "out", "err", env, 20); o.out = slurp(dir + "/out"); return o; }
    std::string path(const std::string & f) { return dir + "/" + f; }
    ~Machine() { std::string c = "rm -rf '" + dir + "'"; if (system(c.c_str())) {} }
};
static inline std::string status_text(int st) { return WIFEXITED(st) ? mc::strf("exit %d", WEXITSTATUS(st)) : mc::strf("signal %d", WTERMSIG(st)); }

// ---- traces -------------------------------------------------------------
struct RVar { char kind; std::string name, type; char format; std::string bytes; };
struct RPoint { uint64_t id; std::vector<RVar> vars; };
static inline std::vector<RPoint> reference(const std::string & text) {
    std::vector<RPoint> r; std::istringstream in(text); std::string l;
    while (std::getline(in, l)) {
        if (l[0] == 'P') { RPoint p; p.id = strtoull(l.c_str() + 2, NULL, 10); r.push_back(p); continue; }
        RVar v; v.kind = l[0]; size_t a = l.find('|'), b = l.find('|', a + 1), c = l.find('|', b + 1); v.name = l.substr(2, a - 2); v.type = l.substr(a + 1, b - a - 1); v.format = l[b + 1];
        for (size_t i = c + 1; i + 1 < l.size(); i += 2) v.bytes += (char) strtol(l.substr(i, 2).c_str(), NULL, 16);
        r.back().vars.push_back(v);
    }
    return r;
}
// "" or how the trace (bytes) differs from the reference
static inline std::string compare(mc::Ctx & c, const std::vector<RPoint> & ref, const std::string & bytes, std::map<uint64_t, Info> & info, bool vars) {
    model::DTrace d; model::Status s = model::decode(model::Bytes(bytes.begin(), bytes.end()), UINT64_MAX, d);
    if (s != model::OK) return "the trace file cannot be read";
    std::set<uint64_t> seen; for (auto & p : d.points) seen.insert(p.statement);
    std::vector<const RPoint *> want; for (auto & p : ref) { auto i = info.find(p.id); if (i != info.end() && i->second.optional && !seen.count(p.id)) continue; want.push_back(&p); }
    auto where = [&](uint64_t id) { auto i = info.find(id); return mc::strf("statement %llx", (unsigned long long) id) + (i == info.end() ? std::string(" (not a statement)") : " of " + i->second.where); };
    for (size_t i = 0; i < d.points.size() || i < want.size(); i++) {
        c.step();
        if (i >= want.size()) return mc::strf("point %zu: the trace has %s, the execution is over", i, where(d.points[i].statement).c_str());
        if (i >= d.points.size()) return mc::strf("point %zu: the trace is over, the execution reaches %s", i, where(want[i]->id).c_str());
        auto & p = d.points[i]; auto & w = *want[i];
        if (p.statement != w.id) return mc::strf("point %zu: the trace has %s, the execution reaches %s", i, where(p.statement).c_str(), where(w.id).c_str());
        { uint64_t h = w.id * 0x9e3779b97f4a7c15ull; for (auto & v : w.vars) h = h * 31 + mc::hash_str(v.name + v.bytes); auto f = info.find(w.id); c.state(h + (f == info.end() ? 0 : mc::hash_str(f->second.where))); }
        if (!vars) continue;
        std::map<std::string, const model::DVar *> have;
        for (auto & v : p.vars) { if (v.name >= d.names.size() || v.type >= d.types.size() || d.types[v.type].name >= d.names.size()) return "a name or a type is not in the dictionary"; if (have.count(d.names[v.name])) return where(w.id) + ": " + d.names[v.name] + " is recorded twice"; have[d.names[v.name]] = &v; }
        for (auto & v : w.vars) {
            auto it = have.find(v.name); if (it == have.end()) return where(w.id) + ": " + v.name + " (" + v.type + ") is not recorded"; const model::DVar & g = *it->second; std::string tn = d.names[d.types[g.type].name];
            if (tn != v.type) return where(w.id) + ": " + v.name + " has type " + tn + ", not " + v.type;
            char f = "USFPB"[g.format < 5 ? g.format : 0]; if (f != v.format) return where(w.id) + ": " + v.name + " (" + v.type + ") has format " + f + ", not " + v.format;
            if (v.kind == 'S') { if (std::string(g.blob.begin(), g.blob.end()) != v.bytes) return where(w.id) + ": " + v.name + " is recorded as \"" + std::string(g.blob.begin(), g.blob.end()) + "\", not \"" + v.bytes + "\""; }
            else if (v.kind == 'A') { if (g.size != 8) return where(w.id) + ": the size of " + v.name; }
            else { if (g.size != v.bytes.size()) return where(w.id) + mc::strf(": %s (%s) has size %u, not %zu", v.name.c_str(), v.type.c_str(), g.size, v.bytes.size()); if (memcmp(&g.u, v.bytes.data(), v.bytes.size())) return where(w.id) + ": " + v.name + " (" + v.type + ") has another value"; }
            have.erase(it);
        }
        if (!have.empty()) return where(w.id) + ": " + have.begin()->first + " is recorded and is not in scope or has no known type";
    }
    return "";
}

// ---- families of programs -----------------------------------------------
static const int PER = 40;      // functions in a file
static const char * const ALL = "aeurgTdmsPHKMNbc{ijwofvzLDFE";
static inline const std::vector<std::vector<Stm> > & bodies(const std::string & kinds, int n, bool exact = false) {
    static std::map<std::pair<std::string, int>, std::vector<std::vector<Stm> > > memo; auto k = std::make_pair(kinds, exact ? -n : n); auto i = memo.find(k); if (i != memo.end()) return i->second;
    Enum e(kinds); std::vector<std::vector<Stm> > all; for (int j = exact ? n : 0; j <= n; j++) for (auto & l : e.lists(j, BLOCK)) all.push_back(l);
    return memo[k] = all;
}
struct Family { const char *kinds; int n; bool exact; std::vector<int> modes; };
static inline std::vector<int> subsets(int n) { std::vector<int> r; for (int i = 0; i < 1 << n; i++) r.push_back(SUBSET | i << 11 | (i & 1 ? AFTER : FUNCTIONS)); return r; }
static inline std::vector<Family> families(bool thorough) {
    std::vector<Family> f = {
        {ALL, 2, false, {0, FUNCTIONS, AFTER, FUNCTIONS | AFTER, FILTER | FUNCTIONS, FILTER | NEXT | AFTER, FILTER | LAST | AFTER, STRINGS | FUNCTIONS, STRINGS | AFTER, CPP | FUNCTIONS, CPP | FUNCTIONS | STRINGS, PARTIAL | AFTER, BARE | FUNCTIONS | AFTER, BARE | AFTER | FILTER, MIXED | STRINGS | FUNCTIONS | AFTER}},
        {ALL, 3, true, thorough ? std::vector<int>{0, FUNCTIONS, AFTER, FUNCTIONS | AFTER | FILTER, PARTIAL | STRINGS | FUNCTIONS | FILTER, CPP} : std::vector<int>{FUNCTIONS | AFTER, PARTIAL | FILTER, FILTER | NEXT}},
        {"aeij{LwM", 4, true, thorough ? std::vector<int>{0, AFTER, FILTER, FILTER | AFTER} : std::vector<int>{}},
        {"aijL", 4, true, subsets(4)},
        {"aeijLwozM{", 3, true, thorough ? subsets(3) : std::vector<int>{}},
        {"aijLwo", 5, true, thorough ? std::vector<int>{FILTER, AFTER} : std::vector<int>{}},
    };
    return f;
}
// all of a file: drawn from the families
struct File { std::vector<std::vector<Stm> > b; size_t from; int mode; std::string what; };
static inline File draw(mc::Ctx & c, int per = PER) {
    auto fs = families(c.thorough); std::vector<Family> g; for (auto & f : fs) if (!f.modes.empty()) g.push_back(f);
    auto & f = g[c.choose(g.size())]; auto & all = bodies(f.kinds, f.n, f.exact); size_t i = c.choose((all.size() + per - 1) / per); File r; r.mode = f.modes[c.choose(f.modes.size())]; r.from = i * per;
    for (size_t j = r.from; j < all.size() && j < r.from + per; j++) r.b.push_back(all[j]);
    r.what = mc::strf("functions %zu..%zu of %zu with at most %d statements of %s, mode %d", r.from, r.from + r.b.size() - 1, all.size(), f.n, f.kinds, r.mode); return r;
}
static inline void fill(Program & p, const File & f) {
    p.text("#include \"run.h\"\n"); p.global("glob", 6); p.enumeration(); std::vector<std::string> calls;
    for (size_t i = 0; i < f.b.size(); i++) { p.base = (f.from + i) * 5; std::string n = mc::strf("f%zu", f.from + i); p.function(n, f.b[i]); calls.push_back(n); }
    p.main_(calls); p.finish();
}
static inline V instrument(Program & p, const std::string & file) { Args a = {p.object()}; for (V x : p.options()) a.push_back(x); if (!file.empty()) { a.push_back(key("trace-file")); a.push_back(str(file)); } return sel::call("instrument", a); }
static inline std::string genome(V obj) { return sel::text_of(sel::get(obj, sel::sy().genome)); }
static inline std::vector<std::string> flags_of(V obj) { std::vector<std::string> r; for (V x : cl::items(sel::get(obj, sel::sy().flags))) r.push_back(cl::text(x)); return r; }
static inline void infos(Program & p, std::map<uint64_t, Info> & m) { for (auto & x : p.by_id) if (p.at.count(x.second)) m[x.first] = p.at[x.second]; }
static inline std::string ref_flag(Machine & m) { return "-DREF=\"" + m.path("ref") + "\""; }
static inline void unsupported_program(mc::Ctx & c, const char *what, const std::string & text, const std::string & err) { c.count(std::string("not_judged: ") + what); if (getenv("CL_TRACE")) fprintf(stderr, "%s\n%s\n", text.c_str(), err.c_str()); }
}
#endif
