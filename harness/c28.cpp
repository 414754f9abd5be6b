// C28: uninstrument takes back all that instrument did.
#include "instr.hpp"
using namespace ins;
static bool instrumented(V obj) { return cl::yes(sel::call("instrumented-p", {obj})); }
static void undo(mc::Ctx & c, Program & p, bool twice) {
    std::string orig = sel::text_of(p.root); V plain = p.object(); c.check(!instrumented(plain), "instrumented-p is true of the original program");
    V obj = instrument(p, "/tmp/trace"); std::string text = genome(obj); c.check(instrumented(obj), "instrumented-p is false of the instrumented program"); c.state(mc::hash_str(text)); c.check(text != orig, "instrument leaves the program as it was");
    V un = sel::call("uninstrument", {obj}); std::string back = genome(un); c.step();
    if (back != orig) { size_t i = 0; while (i < back.size() && i < orig.size() && back[i] == orig[i]) i++; size_t f = orig.rfind("int f", i); c.fail("uninstrument does not give the original text back; it has \"" + back.substr(i, 60) + "\" in place of \"" + orig.substr(i, 60) + "\" in " + (f == std::string::npos ? "" : orig.substr(f, 60))); }
    c.check(!instrumented(un), "instrumented-p is true after uninstrument"); c.check(genome(obj) == back, "the object is not the one that was uninstrumented");
    // statements keep their order, so that their numbers are those of the original
    Args a = sel::index_of(p.root).order, b = sel::index_of(sel::get(un, sel::sy().genome)).order; bool same = a.size() == b.size(); for (size_t i = 0; same && i < a.size(); i++) same = ((cl::Inst *) a[i])->c == ((cl::Inst *) b[i])->c; c.check(same, "the ASTs after uninstrument are not those of the original");
    if (!twice) return;
    Program *q = &p; V o2 = un; p.now = sel::get(un, sel::sy().genome); Args as = {o2}; for (V x : q->options()) as.push_back(x); as.push_back(key("trace-file")); as.push_back(str("/tmp/trace"));
    std::string again = genome(sel::call("instrument", as)); c.check(again == text, "instrumenting again after uninstrument gives another program"); c.step();
    V u2 = sel::call("uninstrument", {o2}); c.check(genome(u2) == orig, "uninstrument does not give the original text back the second time");
}
SCENARIO(bodies) {
    File f = draw(c, 8); if (!c.mine()) return; c.describe(f.what);
    sel::judged(c, [&] { Program p(f.mode); fill(p, f); undo(c, p, true); c.count("functions", f.b.size()); });
}
// files without main, with a comment first, with an error first or last
SCENARIO(files) {
    int first = c.choose(4), last = c.choose(4), mode = c.flip() ? FUNCTIONS | AFTER : 0; bool main = c.flip(); size_t b = c.choose(bodies("aijdL{", 2).size()); if (!c.mine()) return;
    c.describe(mc::strf("first %d, last %d, main %d, mode %d, ", first, last, main, mode) + show(bodies("aijdL{", 2)[b]));
    sel::judged(c, [&] {
        Program p(mode); auto extra = [&](int k) { if (k == 1) { V n = N("c/cpp-declaration", {T("int y;")}); sel::put(n, sel::sy().before, list({N("c/cpp-comment", {T("/* c */")})})); p.top.push_back(n); p.top.push_back(T("\n")); } if (k == 2) { p.top.push_back(N("c/cpp-error", {N("c/cpp-identifier", {T("MACRO")}), T(" ")})); p.top.push_back(T("\n")); } if (k == 3) { p.top.push_back(N("c/cpp-error", {T("MACRO()")})); p.top.push_back(T("\n")); } };
        extra(first); p.function("f0", bodies("aijdL{", 2)[b]); if (main) p.main_({"f0"}); extra(last); p.finish(); undo(c, p, false); });
}
