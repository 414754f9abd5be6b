// C30: the text that stands for a type in a trace is enough to get the type back.
#include "instr.hpp"
using namespace ins;
struct Ty { std::vector<std::pair<std::string, std::string> > spec; int ptr; std::vector<std::string> dims; };
static std::vector<std::pair<std::string, std::string> > words(const std::string & s) {
    std::vector<std::pair<std::string, std::string> > r; std::istringstream in(s); std::string w; static const std::set<std::string> q = {"const", "volatile", "restrict"}, st = {"extern", "static", "auto", "register"}, m = {"signed", "unsigned", "short", "long"}, p = {"char", "int", "float", "double"};
    while (in >> w) r.push_back(std::make_pair("c/cpp-" + std::string(q.count(w) ? "type-qualifier" : st.count(w) ? "storage-class-specifier" : m.count(w) ? w : p.count(w) ? "primitive-type" : "type-identifier"), w));
    return r;
}
static V object(const Ty & t) {
    Args sp, de; for (auto & x : t.spec) sp.push_back(N(x.first.c_str(), {T(x.second)})); for (int i = 0; i < t.ptr; i++) de.push_back(list({key("pointer")}));
    for (auto & d : t.dims) if (d.empty()) de.push_back(list({key("array")})); else de.push_back(list({key("array"), N(isdigit(d[0]) ? "c/cpp-number-literal" : "c/cpp-identifier", {T(d)})}));
    return sel::call("make-instance", {cl::sym("c/cpp-canonical-type"), key("declarator"), list(de), key("specifier"), list(sp)});
}
static std::string trace_text(V t) { return cl::text(sel::call("type-trace-string", {t})); }
static Ty seen(V t) {
    Ty r; r.ptr = 0; for (V x : cl::items(sel::call("specifier", {t}))) r.spec.push_back(std::make_pair(((cl::Inst *) x)->c->name->name, sel::text_of(x)));
    for (V x : cl::items(sel::call("declarator", {t}))) if (cl::car(x) == key("pointer")) { r.ptr++; if (!r.dims.empty()) r.ptr += 100; } else if (cl::car(x) == key("array")) r.dims.push_back(cl::consp(cl::cdr(x)) && cl::yes(cl::cadr(x)) ? sel::text_of(cl::cadr(x)) : ""); else cl::unsupported("declarator");
    return r;
}
static std::string show_(const Ty & t) { std::string s; for (auto & x : t.spec) s += x.second + "/" + x.first.substr(6) + " "; s += std::string(t.ptr > 9 ? 9 : t.ptr, '*'); for (auto & d : t.dims) s += "[" + d + "]"; return s; }
static const std::vector<std::string> & bases() { static std::vector<std::string> b = {"int", "char", "float", "double", "unsigned int", "unsigned char", "short int", "unsigned short int", "long int", "unsigned long int", "long long int", "signed char", "long double", "void", "size_t", "uint8_t", "constant", "int_", "std::string", "Int", "static_t", "longer"}; return b; }
static const std::vector<std::string> & quals() { static std::vector<std::string> q = {"", "const", "volatile", "static", "extern", "register", "auto", "static const", "const static", "const volatile", "restrict const"}; return q; }
static const std::vector<std::vector<std::string> > & arrays() { static std::vector<std::vector<std::string> > a = {{}, {"3"}, {""}, {"SIZE"}, {"2", "3"}, {"", "4"}, {"10", "N", "0"}}; return a; }
// the nodes are of the language asked for
static bool of_language(V t, bool cpp) { V w = cl::sym(cpp ? "cpp-ast" : "c-ast"); for (V x : cl::items(sel::call("specifier", {t}))) if (sel::get(x, sel::sy().language) != w) return false; for (V x : cl::items(sel::call("declarator", {t}))) if (cl::consp(cl::cdr(x)) && cl::yes(cl::cadr(x)) && sel::get(cl::cadr(x), sel::sy().language) != w) return false; return true; }
SCENARIO(types) {
    int b = c.choose(bases().size()), q = c.choose(quals().size()), p = c.choose(4), a = c.choose(arrays().size()); bool cpp = c.flip(); if (!c.mine()) return; Ty t; t.spec = words(quals()[q] + " " + bases()[b]); t.ptr = p; t.dims = arrays()[a]; c.describe(show_(t));
    sel::judged(c, [&] {
        V o = object(t); std::string s = trace_text(o); c.step(); V back = sel::call("type-from-trace-string", {str(s), key(cpp ? "cpp" : "c")}); Ty u = seen(back), w = t; for (auto & d : w.dims) if (!d.empty() && !isdigit(d[0])) d = "";
        std::multiset<std::pair<std::string, std::string> > x(u.spec.begin(), u.spec.end()), y(w.spec.begin(), w.spec.end()); c.check(x == y && u.ptr == w.ptr && u.dims == w.dims, "\"" + s + "\" is read as " + show_(u) + ", not " + show_(w));
        // the words of the base type keep their order
        auto base = [](const Ty & t) { std::string r; for (auto & z : t.spec) if (z.first != "c/cpp-type-qualifier" && z.first != "c/cpp-storage-class-specifier") r += z.second + " "; return r; }; c.check(base(u) == base(w), "\"" + s + "\" is read as " + base(u));
        std::string s2 = trace_text(back); V again = sel::call("type-from-trace-string", {str(s2), key(cpp ? "cpp" : "c")}); Ty v = seen(again); c.check(show_(v) == show_(u), "\"" + s2 + "\", written for the type of \"" + s + "\", is read as " + show_(v)); c.check(trace_text(again) == s2, "reading and writing \"" + s2 + "\" gives \"" + trace_text(again) + "\"");
        c.check(of_language(back, cpp), "\"" + s + "\" is not read as a type of the language"); V other = sel::call("type-from-trace-string", {str(s), key(cpp ? "c" : "cpp")}); c.check(of_language(other, !cpp) && show_(seen(other)) == show_(u), "\"" + s + "\", read in one language and then in the other, is not a type of the second"); c.count("types"); c.state(mc::hash_str(s));
    });
}
// different types have different texts
SCENARIO(distinct) {
    int b = c.choose(bases().size()); if (!c.mine()) return; c.describe(bases()[b]);
    sel::judged(c, [&] { std::map<std::string, std::string> m; for (auto & b2 : bases()) for (auto & q : quals()) for (int p = 0; p < 3; p++) for (auto & a : arrays()) { if (b2 != bases()[b] && b2 != bases()[(b + 1) % bases().size()]) continue; Ty t; t.spec = words(q + " " + b2); t.ptr = p; t.dims = a; for (auto & d : t.dims) if (!d.empty() && !isdigit(d[0])) d = ""; std::string s = trace_text(object(t)); c.step(); auto i = m.insert(std::make_pair(s, show_(t))); c.check(i.first->second == show_(t), "\"" + s + "\" stands for " + show_(t) + " and for " + i.first->second); } });
}
// the definition of a structure is cut to its first line
SCENARIO(definitions) {
    static const char *d[] = {"struct s {\n int a;\n}", "struct s\n{\n}", "union u { int a; }", "enum e {\n A, B }", "struct s"}; static const char *w[] = {"struct s", "struct s", NULL, "enum e", "struct s"}; int k = c.choose(5), p = c.choose(3); if (!c.mine()) return; c.describe(d[k]);
    sel::judged(c, [&] { Ty t; t.spec = {std::make_pair(std::string("c/cpp-type-identifier"), std::string(d[k]))}; t.ptr = p; std::string s = trace_text(object(t)); c.step(); c.check(s.find('\n') == std::string::npos, "the text of the type has more than one line"); if (w[k]) c.check(s == std::string(p, '*') + w[k], "the text is \"" + s + "\""); });
}
