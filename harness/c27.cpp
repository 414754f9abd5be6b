// C27: the trace of an instrumented program is its execution.
#include "instr.hpp"
using namespace ins;
static void traced_(mc::Ctx & c, Machine & m, Program & p, V obj, const std::vector<std::vector<std::string> > & envs, const std::function<std::string(const Outcome &)> & bytes) {
    std::string err, q = m.build({genome(obj)}, p.mode, flags_of(obj), err); c.check(!q.empty(), "the instrumented program does not compile: " + err);
    std::string r = m.build({"#include \"ref.h\"\n" + p.ref}, p.mode, {ref_flag(m)}, err); if (r.empty()) { unsupported_program(c, "no reference program", p.ref, err); return; }
    std::map<uint64_t, Info> info; infos(p, info);
    for (auto & e : envs) {
        unlink(m.path("ref").c_str()); unlink(m.path("trace").c_str()); Outcome ro = m.run(r, e), o = m.run(q, e); if (ro.status != o.status) { c.count("not_judged: the instrumented program ends in another way"); continue; }
        auto ref = reference(slurp(m.path("ref"))); std::string d = compare(c, ref, bytes(o), info, true); c.check(d.empty(), d); c.count("points", ref.size());
    }
}
SCENARIO(bodies) {
    File f = draw(c); if (!c.mine()) return; c.describe(f.what);
    sel::judged(c, [&] { Machine m(c); Program p(f.mode); fill(p, f); traced_(c, m, p, instrument(p, m.path("trace")), {{}}, [&](const Outcome &) { return slurp(m.path("trace")); }); c.count("functions", f.b.size()); });
}
SCENARIO(types) {
    static const int modes[] = {FUNCTIONS, AFTER, STRINGS | FUNCTIONS | AFTER, CPP | FUNCTIONS, CPP | STRINGS | AFTER, FILTER | FUNCTIONS | AFTER, MIXED | STRINGS | FUNCTIONS | AFTER, CPP | MIXED | STRINGS | FUNCTIONS | AFTER}; int mode = modes[c.choose(8)]; if (!c.mine()) return; c.describe(mc::strf("a declaration of every type, mode %d", mode));
    File f; f.mode = mode; f.from = 0; Stm d{'d', {}, {}}, a{'a', {}, {}}; for (size_t i = 0; i < 2 * types().size(); i++) f.b.push_back({d, a, Stm{'i', {Stm{'{', {}, {{d, a}}}}, {}}});
    sel::judged(c, [&] { Machine m(c); Program p(mode); fill(p, f); traced_(c, m, p, instrument(p, m.path("trace")), {{}}, [&](const Outcome &) { return slurp(m.path("trace")); }); });
}
SCENARIO(ends) {
    auto & all = bodies("axi{w", c.thorough ? 4 : 3); std::vector<std::vector<Stm> > b; for (auto & l : all) if (uses(l, 'x')) b.push_back(l);
    size_t i = c.choose(b.size()); int mode = c.flip() ? AFTER | FUNCTIONS : 0; if (!c.mine()) return; c.describe(show(b[i]) + mc::strf(", mode %d", mode)); File f; f.mode = mode; f.from = i; f.b = {b[i]};
    sel::judged(c, [&] { Machine m(c); Program p(mode); fill(p, f); traced_(c, m, p, instrument(p, m.path("trace")), {{"HOW=1"}, {"HOW=2"}, {"HOW=3"}, {"HOW=4"}, {"HOW=5"}}, [&](const Outcome &) { return slurp(m.path("trace")); }); });
}
// where the trace goes
SCENARIO(destinations) {
    static const char *names[] = {"trace", "tr ace", "tr\"ace", "tr\\ace", "tr%dace", "tr~ace"}; int k = c.choose(6 + 4), mode = c.flip() ? FUNCTIONS : 0; if (!c.mine()) return; Stm d{'d', {}, {}}, a{'a', {}, {}}; File f; f.mode = mode; f.from = 0; f.b = {{a, d}, {Stm{'i', {a}, {}}, a}};
    c.describe(k < 6 ? mc::strf("trace file %s", names[k]) : k == 6 ? "stderr" : k == 7 ? "stdout" : k == 8 ? "an environment variable" : "a handshake file");
    sel::judged(c, [&] {
        Machine m(c); Program p(mode); fill(p, f); Args as = {p.object()}; for (V x : p.options()) as.push_back(x); std::vector<std::string> env; std::string at = m.path(k < 6 ? names[k] : "trace");
        auto opt = [&](const char *o, V v) { as.push_back(key(o)); as.push_back(v); };
        if (k < 6) opt("trace-file", str(at)); else if (k == 6) opt("trace-file", key("stderr")); else if (k == 7) { opt("trace-file", key("stdout")); env = {"QUIET=1"}; } else if (k == 8) { opt("trace-env", str("MY_TRACE")); env = {"MY_TRACE=" + at}; } else { env = {"__SEL_HANDSHAKE_FILE=" + m.path("hand")}; }
        V obj = sel::call("instrument", as);
        if (k == 9) { std::string h = m.path("hand"); spit(h, at + "\n"); }
        traced_(c, m, p, obj, {env}, [&](const Outcome & o) { if (k == 9) c.check(access(m.path("hand").c_str(), 0) != 0, "the handshake file is still there"); return k == 6 ? slurp(m.path("err")) : k == 7 ? o.out : slurp(at); });
    });
}
