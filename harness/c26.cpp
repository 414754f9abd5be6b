// C26: collecting the traces of a test suite.  The collector is the Lisp code
// of traceable.lisp; the test cases, the programs they run and the files are
// simulated.  A program waits for the name of a pipe in the handshake file,
// removes the file, opens the pipe and writes its trace; its steps are
// interleaved with the calls of the collector in every way within the bounds.
#include "lispdb.hpp"
using namespace ldb;

enum How { FINE, CUT, NOTHING, DIES_FIRST, DIES_REMOVED, UNTRACED, NEVER, KINDS };
static const char *HOW[] = {"trace", "cut trace", "empty trace", "dies before the handshake", "dies before it opens the pipe", "not instrumented", "never looks"};
struct Case { std::vector<int> runs; };
struct Hang { std::string m; };

static const int NT = 4;
static model::Trace trace_no(int k) {
    model::Trace t; t.names = {"x", "int"}; t.types = {{1, FU, 4}};
    for (int i = 0; i <= k % 3; i++) { t.points.push_back({stmt(100 * (k + 1) + i), var(0, 0, std::string("\1\0\0\0", 4))}); }
    return t;
}
static std::string sexp_no(int k) { std::string s; for (int i = 0; i <= k % 3; i++) s += mc::strf("((:C . %d) (:SCOPES #(\"x\" \"int\" 1)))\n", 100 * (k + 1) + i); return s; }

static struct Sim {
    // the test suite
    std::vector<Case> cases; bool sexp; std::vector<int> delays;
    // files
    std::string dir; std::map<std::string, std::string> files; std::set<std::string> fifos, dirs; int temps;
    // the program
    bool running; size_t cs, run, at, wait; int stage; int made; std::string hs, log, name;
    int calls; I time; int started, finished; std::string wrong, trail; bool ignore; std::string restart; int create_fails, fails_left; bool probe_race, unbuildable;
    void note(const char *w) { if (trail.size() < 600) { trail += " "; trail += w; } }
    void die() { running = false; note("<exit>"); }
    int pause() { int d = delays.empty() ? 0 : delays[at % delays.size()]; at++; return d; }
    void start(size_t c, const std::string & h, const std::string & l) { cs = c; run = 0; stage = 0; hs = h; log = l; running = true; wait = pause(); started++; }
    int how() const { return cases[cs].runs[run]; }
    bool blocked() const {      // what the next step waits for is not there
        if (run >= cases[cs].runs.size()) return false;
        if (how() == NEVER) return true;
        if (sexp) return how() != DIES_FIRST && how() != UNTRACED;      // opening the pipe
        if (how() == UNTRACED || how() == DIES_FIRST || hs.empty()) return false;
        if (stage == 0) { auto f = files.find(hs); return f == files.end() || f->second.empty(); }
        return stage == 2 && how() != DIES_REMOVED;                     // opening the pipe
    }
    void next() { run++; stage = 0; }
    // one step which is not blocked
    void step() {
        if (run >= cases[cs].runs.size()) { die(); return; }
        if (how() == DIES_FIRST) { die(); return; }
        if (how() == UNTRACED || (hs.empty() && !sexp)) { next(); return; }
        if (stage == 0) { name = files[hs]; while (!name.empty() && name[name.size() - 1] == '\n') name.resize(name.size() - 1); stage = 1; note("<read>"); }
        else if (stage == 1) { files.erase(hs); stage = 2; note("<removed>"); }
        else die();             // before it opens the pipe
    }
    void tick(const char *w) {
        note(w);
        if (++calls > 20000) throw Hang{"the collector does not come to an end:" + trail};
        if (!running || blocked()) return;
        if (wait) { wait--; return; }
        step(); wait = pause();
    }
    // the collector opens PATH for reading, and waits for a writer
    void reading(const std::string & path) {
        note("<reading>");
        for (int i = 0; i < 10000 && running; i++) {
            if (!blocked()) { step(); continue; }
            if (how() == NEVER) return;
            if (!sexp && stage != 2) return;
            std::string to = sexp ? log : name;
            if (!fifos.count(to)) { wrong = "a program is told to write to something which is no pipe of the collector: " + to; return; }
            if (to != path) return;
            std::string b = sexp ? sexp_no(made) : encode(trace_no(made));
            if (how() == CUT) b = b.substr(0, b.size() - (sexp ? 3 : 2)); else if (how() == NOTHING) b = "";
            impl::write_file(path, b); note("<written>"); made++;
            if (how() == FINE) { next(); wait = pause(); } else die();
            return;
        }
    }
} W;
static std::string path_of(V v) { return cl::text(v); }
static V pathname(const char *k) { std::string p = W.dir + mc::strf("/%s%d", k, W.temps++); return cl::str(p); }
static V file_form(V r, cl::Env *e, bool fifo) {
    V s = cl::car(r), var = NULL; for (V x = s; cl::consp(x); x = cl::cddr(x)) { if (cl::iskey(cl::car(x), "pathname")) var = cl::cadr(x); else cl::unsupported("option of a temporary file"); }
    if (!var) cl::unsupported("temporary file");
    V p = pathname(fifo ? "pipe" : "tmp"); std::string n = cl::text(p); if (fifo) W.fifos.insert(n);
    struct G { std::string n; ~G() { W.fifos.erase(n); W.files.erase(n); unlink(n.c_str()); } } g = {n};
    cl::Env *k = new cl::Env(e); k->vars.push_back(std::make_pair(cl::S(var), p)); return cl::progn(cl::strip_decl(cl::cdr(r)), k);
}
// a string that was put into foreign memory before the call
static bool name_at(V x) { uint64_t p = ((cl::Ptr *) x)->p; for (auto & f : W.fifos) if (p > 4096 && !__asan_region_is_poisoned((void *) p, f.size() + 1) && !memcmp((void *) p, f.c_str(), f.size() + 1)) return true; return false; }
static void before() {
    static std::string pre = "(defclass software () ()) (defclass test-suite () ((test-cases :initarg :test-cases :initform nil :reader test-cases))) (defclass test-case () ((number :initarg :number :reader case-number) (program-name :initarg :program-name :reader program-name) (program-args :initarg :program-args :reader program-args)))";
    cl::S(cl::sym("test-cases"))->fn = NULL; cl::S(cl::sym("program-name"))->fn = NULL; cl::S(cl::sym("program-args"))->fn = NULL;
    cl::load_text(pre, notes());
    cl::form("with-temporary-file", [](V r, cl::Env *e) { return file_form(r, e, false); }); cl::form("with-temporary-fifo", [](V r, cl::Env *e) { return file_form(r, e, true); });
    cl::form("with-output-to-file", [](V r, cl::Env *e) -> V {
        cl::Args h = cl::items(cl::car(r)); std::string p = path_of(cl::eval(h[1], e)); V ex = NULL; for (size_t i = 2; i + 1 < h.size(); i += 2) { if (cl::iskey(h[i], "if-exists")) ex = cl::eval(h[i + 1], e); else if (!cl::iskey(h[i], "if-does-not-exist") && !cl::iskey(h[i], "external-format")) cl::unsupported("option of with-output-to-file"); }
        W.tick("create"); if (W.fails_left > 0) { W.fails_left--; throw cl::LispError{"the file cannot be opened now", cl::nil()}; } W.fails_left = W.create_fails; std::string old;
        if (W.files.count(p)) { if (!ex || cl::iskey(ex, "error")) throw cl::LispError{"the file exists", cl::nil()}; if (ex == cl::nil()) cl::unsupported("if-exists nil"); if (cl::iskey(ex, "append")) old = W.files[p]; }
        W.files[p] = old; cl::Stream *s = new cl::Stream; cl::Env *k = new cl::Env(e); k->vars.push_back(std::make_pair(cl::S(h[0]), s));
        W.tick("write"); V v = cl::progn(cl::strip_decl(cl::cdr(r)), k); W.files[p] = old + s->data; W.tick("close"); return v; });
}
static void world_() {
    static bool done = false; if (done) return; done = true;
    before_load = before; boot();
    auto & w = cl::state().world;
    w["probe-file"] = [](cl::Args & a) -> V { std::string p = path_of(a[0]); bool there = W.files.count(p); W.tick("probe"); if (W.probe_race && there && !W.files.count(p)) throw cl::LispError{"the file vanished while it was looked up", cl::nil()}; return W.files.count(p) || W.dirs.count(p) || W.fifos.count(p) ? a[0] : cl::nil(); };
    w["directory-pathname-p"] = [](cl::Args & a) -> V { return cl::boolean(W.dirs.count(path_of(a[0]))); };
    w["delete-file"] = [](cl::Args & a) -> V { std::string p = path_of(a[0]); if (!W.files.erase(p)) throw cl::LispError{"no such file", cl::nil()}; return cl::tee(); };
    w["delete-directory-tree"] = [](cl::Args & a) -> V { std::string p = path_of(a[0]); if (!W.dirs.erase(p)) throw cl::LispError{"no such directory", cl::nil()}; return cl::tee(); };
    w["temp-file-name"] = [](cl::Args &) -> V { return pathname("bin"); };
    w["sleep"] = [](cl::Args &) -> V { W.time += 1000000; W.tick("sleep"); return cl::nil(); };
    w["get-internal-real-time"] = [](cl::Args &) -> V { W.time += 1000000; W.tick("time"); return cl::num(W.time); };
    w["process-alive-p"] = [](cl::Args &) -> V { W.tick("alive?"); return cl::boolean(W.running); };
    w["start-test"] = [](cl::Args & a) -> V {
        W.tick("start"); if (a.size() < 2 || a[1]->t != cl::INST) cl::unsupported("start-test");
        std::string bin = path_of(a[0]); if (!W.files.count(bin) && !W.dirs.count(bin)) W.wrong = "the program is started, but it has not been built";
        V wait = cl::kwarg(a, 2, "wait", cl::tee()); if (cl::yes(wait)) throw Hang{"the collector waits for the program to end, which waits for the collector"};
        std::string hs, log; V env = cl::kwarg(a, 2, "env", cl::nil());
        for (V x : cl::items(env)) { std::string k = cl::text(cl::car(x)); if (k == cl::text(cl::S(cl::sym("*trace-instrument-handshake-env-name*"))->value)) hs = path_of(cl::cdr(x)); if (k == cl::text(cl::S(cl::sym("*trace-instrument-log-env-name*"))->value)) log = path_of(cl::cdr(x)); }
        if (W.running) W.wrong = "a test case is started while another one is running";
        W.start((size_t) cl::in(cl::slot_value(a[1], cl::sym("number"))), hs, log); return cl::sym("%process"); };
    w["finish-test"] = [](cl::Args &) -> V { W.note("finish"); W.running = false; W.finished++; return cl::nil(); };
    w["phenome"] = [](cl::Args & a) -> V { W.tick("build"); if (W.unbuildable) { return call("error", {cl::str("compilation failed")}); } std::string p = path_of(cl::kwarg(a, 1, "bin", cl::str("?"))); if (W.temps % 2) W.files[p] = "program"; else W.dirs.insert(p); return cl::str(p); };
    w["open"] = [](cl::Args & a) -> V { std::string p = path_of(a[0]); bool fifo = W.fifos.count(p); if (fifo) W.reading(p); std::ifstream f(p); if (!f && fifo) return cl::nil(); if (!f) throw cl::LispError{"no such file", cl::nil()}; std::stringstream b; b << f.rdbuf(); cl::Stream *s = new cl::Stream; s->data = b.str(); return s; };
    w["close"] = [](cl::Args &) -> V { return cl::tee(); };
    w["read"] = [](cl::Args & a) -> V {
        if (a.empty() || a[0]->t != cl::STREAM) cl::unsupported("read");
        cl::Stream *s = (cl::Stream *) a[0]; cl::Reader r(s->data); r.i = s->pos; r.skip();
        bool err = a.size() < 2 || cl::yes(a[1]);
        if (r.i >= s->data.size()) { if (err) throw cl::LispError{"end of file", cl::nil()}; return a.size() > 2 ? a[2] : cl::nil(); }
        V x; try { x = r.read(); } catch (cl::EndOfText &) { throw cl::LispError{"end of file inside an object", cl::nil()}; }
        s->pos = r.i; return x; };
    // the library opens the pipe
    cl::state().calling = [](const std::string &, cl::Args & a) { for (V x : a) { std::string p = x->t == cl::STR ? cl::text(x) : x->t == cl::PTR && W.fifos.size() && name_at(x) ? (const char *) ((cl::Ptr *) x)->p : ""; if (W.fifos.count(p)) W.reading(p); } };
    cl::keep_all();
}
struct Setup { std::vector<Case> cases; bool sexp, ignore, pre; long num, max; std::vector<int> delays; bool direct; int create_fails; bool probe_race; Setup() : create_fails(0), probe_race(false), sexp(false), ignore(false), pre(false), num(-1), max(0), direct(false) {} };
static std::string show(const Setup & s) {
    std::string r = s.sexp ? "sexp" : "binary"; if (s.direct) r += ", one test case"; if (s.ignore) r += ", empty traces ignored"; if (s.pre) r += ", program is there"; if (s.num >= 0) r += mc::strf(", num-traces %ld", s.num); if (s.max) r += mc::strf(", max-trace-points %ld", s.max);
    for (auto & c : s.cases) { r += " ["; for (int h : c.runs) r += std::string(HOW[h]) + ";"; r += "]"; }
    if (s.create_fails) r += mc::strf(", the handshake file can be opened at the attempt %d", s.create_fails + 1);
    if (s.probe_race) r += ", probe-file fails if the file vanishes meanwhile";
    r += " delays"; for (int d : s.delays) r += mc::strf(" %d", d); return r;
}
static void collect(mc::Ctx & c, const Setup & s) {
    c.describe(show(s)); c.state(mc::hash_str(c.desc));
    world_();
    W = Sim(); W.cases = s.cases; W.sexp = s.sexp; W.delays = s.delays; W.dir = c.scratch; W.temps = s.pre ? 1 : (int) s.cases.size() % 2; W.running = false; W.cs = W.run = W.at = W.wait = 0; W.stage = W.made = W.calls = W.started = W.finished = 0; W.time = 0; W.ignore = s.ignore; W.create_fails = W.fails_left = s.create_fails; W.probe_race = s.probe_race; W.unbuildable = false;
    cl::state().restarts.clear(); cl::state().guarded = 0;
    cl::state().signalled = [](const std::string &, V) { if (!W.ignore) return; auto & r = cl::state().restarts; for (size_t i = r.size(); i-- > 0;) if (r[i].first == "ignore-empty-trace") throw cl::Restart{r[i].first, r[i].second}; };
    judged(c, [&]() {
        V obj = call("make-instance", {cl::sym(s.sexp ? "sexp-traceable" : "binary-traceable")});
        cl::Args ts; for (size_t i = 0; i < s.cases.size(); i++) ts.push_back(call("make-instance", {cl::sym("test-case"), kw("number"), cl::num(i), kw("program-name"), cl::str(mc::strf("prog%zu", i)), kw("program-args"), cl::list(cl::Args{cl::str(mc::strf("-%zu", i))})}));
        std::string bin = c.scratch + "/bin"; if (s.pre) W.files[bin] = "program";
        cl::Args a = {obj}; bool error = false; std::string hang, msg;
        if (s.direct) { a.push_back(ts[0]); call("reset-traces", {obj}); } else a.push_back(call("make-instance", {cl::sym("test-suite"), kw("test-cases"), cl::list(ts)}));
        if (s.pre) { a.push_back(kw("bin")); a.push_back(cl::str(bin)); }
        if (s.num >= 0) { a.push_back(kw("num-traces")); a.push_back(cl::num(s.num)); }
        if (s.max) { a.push_back(kw("max-trace-points")); a.push_back(cl::num(s.max)); }
        try { call(s.direct ? "collect-test-case-traces" : "collect-traces", a); } catch (cl::LispError & e) { error = true; msg = e.msg; } catch (Hang & h) { hang = h.m; }
        c.step(W.calls);
        if (!hang.empty()) c.fail(hang);
        c.check(W.wrong.empty(), W.wrong + ":" + W.trail);
        // what there should be
        struct Got { int no; size_t cs; }; std::vector<Got> want; int no = 0; bool err = false; size_t ran = 0;
        for (size_t i = 0; i < s.cases.size() && !err; i++) {
            if (s.num >= 0 && (long) want.size() >= s.num) break;
            size_t before = want.size(); ran++;
            for (int h : s.cases[i].runs) {
                if (s.num >= 0 && (long) want.size() >= s.num) break;
                if (s.sexp && want.size() > before) break;
                if (h == UNTRACED) continue;
                if (h == FINE) want.push_back(Got{no++, i}); else { if (h == CUT || h == NOTHING) { if (s.sexp && h == CUT) { } no++; } break; }
            }
            if (want.size() == before && !s.ignore) err = true;
        }
        c.check(!error || err, "an error although every test case gives traces: " + msg + ":" + W.trail);
        c.check(error || !err, "no error for a test case which gives no trace:" + W.trail);
        V db = call("traces", {obj}); I n = cl::in(call("n-traces", {db}));
        c.check(n == (I) want.size(), mc::strf("%d traces instead of %zu:", (int) n, want.size()) + W.trail);
        for (size_t i = 0; i < want.size(); i++) {
            V g = call("get-trace", {db, cl::num(s.sexp ? want.size() - 1 - i : i)}); int k = want[i].no; size_t len = k % 3 + 1; if (s.max && len > (size_t) s.max) len = s.max;
            std::vector<LPoint> p = points_of(assoc(g, "trace")); bool ok = p.size() == len; for (size_t j = 0; ok && j < len; j++) ok = p[j].c == (I) (100 * (k + 1) + j) && p[j].vars.size() == 1;
            c.check(ok, mc::strf("trace %zu is not the one of the program: ", i) + show(p));
            V in = assoc(g, "input"); c.check(cl::equal(in, cl::list(cl::Args{cl::str(mc::strf("prog%zu", want[i].cs)), cl::str(mc::strf("-%zu", want[i].cs))})), mc::strf("trace %zu has the metadata ", i) + cl::show(in));
        }
        c.check(W.started == (int) ran, mc::strf("%d test cases are run instead of %zu:", W.started, ran) + W.trail);
        c.check(W.finished == W.started, mc::strf("%d of %d test processes are finished:", W.finished, W.started) + W.trail);
        c.check(W.fifos.empty(), "a pipe is left behind");
        c.check(W.dirs.empty(), "the program is left behind");
        if (s.pre) { c.check(W.files.count(bin), "the program which was there has been removed"); W.files.erase(bin); }
        c.check(W.files.empty(), "a file is left behind: " + (W.files.empty() ? std::string() : W.files.begin()->first));
    });
    cl::state().signalled = nullptr;
}
// every interleaving of a program run N times with the collector
SCENARIO(interleavings) {
    Setup s; int n = 1 + c.choose(3); s.cases.resize(1); s.cases[0].runs.assign(n, FINE); s.direct = c.flip();
    int d = n == 1 ? (c.thorough ? 40 : 20) : n == 2 ? (c.thorough ? 6 : 4) : (c.thorough ? 4 : 3), k = n == 1 ? 3 : 2 * n + (n < 3);
    for (int i = 0; i < k; i++) s.delays.push_back(c.choose(d));
    if (!c.mine()) return;
    collect(c, s);
}
// every behaviour of the programs
SCENARIO(behaviours) {
    Setup s; int n = 1 + c.choose(2); s.sexp = c.flip(); s.ignore = c.flip();
    for (int i = 0; i < n; i++) { int m = c.choose(n == 1 ? 4 : 3); Case k; for (int j = 0; j < m; j++) { int h = c.choose(KINDS); k.runs.push_back(s.sexp && h == CUT ? NOTHING : s.sexp && h == DIES_REMOVED ? DIES_FIRST : h); } s.cases.push_back(k); }
    int d = c.choose(c.thorough ? 6 : 3); s.delays = {d};
    if (!c.mine()) return;
    collect(c, s);
}
// limits
SCENARIO(limits) {
    Setup s; int n = 1 + c.choose(3); s.sexp = c.flip(); s.ignore = c.flip(); s.pre = c.flip();
    for (int i = 0; i < n; i++) { int m = c.choose(s.sexp ? 2 : 4); Case k; k.runs.assign(m, FINE); s.cases.push_back(k); }
    s.num = c.choose(7) - 1; s.max = c.choose(4); int d = c.choose(c.thorough ? 4 : 2); s.delays = {d};
    s.direct = n == 1 && s.num && c.flip();
    if (!c.mine()) return;
    collect(c, s);
}
// interleavings with failing programs
SCENARIO(failures) {
    Setup s; s.ignore = true; int h = c.choose(KINDS), at = c.choose(3), n = at + 1 + c.choose(2); Case k; k.runs.assign(n, FINE); k.runs[at] = h; Case last; last.runs = {FINE}; s.cases = {k, last};
    int m = 2 * at + 3; for (int i = 0; i < std::min(m, 6); i++) s.delays.push_back(c.choose(c.thorough ? 4 : at ? 2 : 3));
    if (!c.mine()) return;
    collect(c, s);
}
// the faults the collector expects of the file system
SCENARIO(faults) {
    Setup s; s.create_fails = c.choose(3); s.probe_race = c.flip(); if (!s.create_fails && !s.probe_race) return;
    int n = 1 + c.choose(3); Case k; k.runs.assign(n, FINE); s.cases = {k}; if (c.flip()) { Case l; l.runs = {FINE}; s.cases.push_back(l); }
    int m = n == 1 ? 3 : 4; for (int i = 0; i < m; i++) s.delays.push_back(c.choose(n == 1 ? (c.thorough ? 12 : 6) : (c.thorough ? 5 : 3)));
    if (!c.mine()) return;
    collect(c, s);
}
// a program that cannot be built
SCENARIO(unbuildable) {
    static const char *R[] = {"", "skip-trace-collection", "nil-traces", "skip-test-case"};
    bool sexp = c.flip(), direct = c.flip(); int before = c.choose(3), ri = c.choose(4), n = 1 + c.choose(2); 
    if (!c.mine()) return;
    c.describe(mc::strf("%s, %s, %d traces before, restart %s", sexp ? "sexp" : "binary", direct ? "one test case" : "a suite", before, R[ri])); c.state(mc::hash_str(c.desc) + n);
    world_();
    W = Sim(); W.sexp = sexp; W.dir = c.scratch; W.temps = 0; W.running = false; W.cs = W.run = W.at = W.wait = 0; W.stage = W.made = W.calls = W.started = W.finished = 0; W.time = 0; W.ignore = false; W.create_fails = W.fails_left = 0; W.probe_race = false; W.unbuildable = false;
    W.cases.assign(n, Case()); for (auto & k : W.cases) k.runs = {FINE};
    cl::state().restarts.clear(); cl::state().guarded = 0;
    judged(c, [&]() {
        V obj = call("make-instance", {cl::sym(sexp ? "sexp-traceable" : "binary-traceable")});
        cl::Args ts; for (int i = 0; i < n; i++) ts.push_back(call("make-instance", {cl::sym("test-case"), kw("number"), cl::num(i), kw("program-name"), cl::str("prog"), kw("program-args"), cl::nil()}));
        V suite = call("make-instance", {cl::sym("test-suite"), kw("test-cases"), cl::list(ts)});
        if (before) { call("collect-traces", {obj, suite}); if (before == 2) call("collect-test-case-traces", {obj, ts[0]}); }
        V old = call("traces", {obj}); I had = before ? cl::in(call("n-traces", {old})) : 0;
        int started = W.started; W.unbuildable = true; W.restart = R[ri];
        cl::state().signalled = [](const std::string &, V) { auto & r = cl::state().restarts; for (size_t i = r.size(); i-- > 0;) if (r[i].first == W.restart) throw cl::Restart{r[i].first, r[i].second}; };
        bool error = false; V got = cl::nil();
        try { got = call(direct ? "collect-test-case-traces" : "collect-traces", {obj, direct ? ts[0] : suite}); } catch (cl::LispError & e) { error = true; }
        cl::state().signalled = nullptr; c.step(W.calls);
        bool applies = direct ? ri == 3 : ri == 1 || ri == 2;
        c.check(error == !applies, applies ? "the restart does not end the error" : "no error for a program that cannot be built");
        c.check(W.started == started, "a test case is run although the program cannot be built");
        V now = call("traces", {obj});
        if (applies && !direct && ri == 2) c.check(!cl::yes(now) && !cl::yes(got), "the traces do not become nil");
        else {
            c.check(now == old, "the traces are others than before");
            if (before) c.check(cl::in(call("n-traces", {now})) == had, "the number of traces has changed");
            if (applies && !direct) c.check(got == old, "the result is not the traces there were");
            if (applies && direct) c.check(!cl::yes(got), "a skipped test case does not give nil");
        }
        c.check(W.fifos.empty() && W.dirs.empty() && W.files.empty(), "a file is left behind");
    });
    cl::state().signalled = nullptr;
}
