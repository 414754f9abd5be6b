// C23: an instrumented program behaves like the original.
#include "instr.hpp"
using namespace ins;
static void same_(mc::Ctx & c, Machine & m, const std::string & orig, V obj, int mode, const std::vector<std::vector<std::string> > & envs) {
    std::string err, o = m.build({orig}, mode, {}, err); if (o.empty()) { unsupported_program(c, "the program does not compile", orig, err); return; }
    std::string q = m.build({genome(obj)}, mode, flags_of(obj), err); c.check(!q.empty(), "the instrumented program does not compile: " + err);
    for (auto & e : envs) {
        Outcome before = m.run(o, e), after = m.run(q, e); c.step(std::count(before.out.begin(), before.out.end(), '\n')); { std::istringstream in(before.out); std::string l; while (std::getline(in, l)) c.state(mc::hash_str(l) * 31 + mc::hash_str(c.desc)); }
        c.check(after.status == before.status, "the instrumented program ends with " + status_text(after.status) + ", the original with " + status_text(before.status));
        size_t i = 0, line = 0; while (i < before.out.size() && i < after.out.size() && before.out[i] == after.out[i]) line += before.out[i++] == '\n';
        c.check(after.out == before.out, mc::strf("the output of the instrumented program is different, first for function %zu of the file", line / 4));
    }
}
// all small function bodies
SCENARIO(bodies) {
    File f = draw(c); if (!c.mine()) return; c.describe(f.what);
    sel::judged(c, [&] { Machine m(c); Program p(f.mode); fill(p, f); std::string orig = sel::text_of(p.root); same_(c, m, orig, instrument(p, m.path("trace")), f.mode, {{}}); c.count("functions", f.b.size()); });
}
// declarations of all types
SCENARIO(types) {
    static const int modes[] = {FUNCTIONS, AFTER, STRINGS | FUNCTIONS | AFTER, CPP | FUNCTIONS, CPP | STRINGS | AFTER, FILTER | FUNCTIONS | AFTER, MIXED | STRINGS | FUNCTIONS | AFTER, CPP | MIXED | STRINGS | FUNCTIONS | AFTER}; int mode = modes[c.choose(8)]; if (!c.mine()) return; c.describe(mc::strf("a declaration of every type, mode %d", mode));
    File f; f.mode = mode; f.from = 0; Stm d{'d', {}, {}}, a{'a', {}, {}}; for (size_t i = 0; i < 2 * types().size(); i++) f.b.push_back({d, a, Stm{'i', {Stm{'{', {}, {{d, a}}}}, {}}});
    sel::judged(c, [&] { Machine m(c); Program p(mode); fill(p, f); std::string orig = sel::text_of(p.root); same_(c, m, orig, instrument(p, m.path("trace")), mode, {{}}); });
}
// there is nowhere to write the trace to
SCENARIO(nowhere) {
    int k = c.choose(5), mode = c.flip() ? FUNCTIONS : 0; bool cpp = c.flip(); if (!c.mine()) return; if (cpp) mode |= CPP; static const char *w[] = {"an environment variable that is not set", "a variable that names a missing directory", "a file in a missing directory", "a directory", "no handshake file"}; c.describe(w[k]);
    Stm d{'d', {}, {}}, a{'a', {}, {}}; File f; f.mode = mode; f.from = 0; f.b = {{a, d}, {Stm{'i', {a}, {}}, a}};
    sel::judged(c, [&] {
        Machine m(c); Program p(mode); fill(p, f); std::string orig = sel::text_of(p.root); Args as = {p.object()}; for (V x : p.options()) as.push_back(x); std::vector<std::string> env;
        auto opt = [&](const char *o, V v) { as.push_back(key(o)); as.push_back(v); }; if (k < 2) opt("trace-env", str("MY_TRACE")); if (k == 1) env = {"MY_TRACE=" + m.path("no/trace")}; if (k == 2) opt("trace-file", str(m.path("no/trace"))); if (k == 3) opt("trace-file", str(m.path("")));
        same_(c, m, orig, sel::call("instrument", as), mode, {env});
    });
}
// the process ends in the middle
SCENARIO(ends) {
    auto & all = bodies("axi{w", c.thorough ? 4 : 3); std::vector<std::vector<Stm> > b; for (auto & l : all) if (uses(l, 'x')) b.push_back(l);
    size_t i = c.choose(b.size()); int mode = c.flip() ? AFTER | FUNCTIONS : 0; if (!c.mine()) return; c.describe(show(b[i]) + mc::strf(", mode %d", mode)); File f; f.mode = mode; f.from = i; f.b = {b[i]};
    sel::judged(c, [&] { Machine m(c); Program p(mode); fill(p, f); std::string orig = sel::text_of(p.root); same_(c, m, orig, instrument(p, m.path("trace")), mode, {{"HOW=1"}, {"HOW=2"}, {"HOW=3"}, {"HOW=4"}, {"HOW=5"}}); });
}
