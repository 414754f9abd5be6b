// C24: the handshake between the collector of traces and an instrumented
// program.  The program's side is the setup code taken from
// instrumentation/c-cpp.lisp; the collector's side is a model of what
// traceable.lisp does: create the file, write the name of the pipe, wait
// until the program has removed the file, then open the pipe.  The steps of
// the collector are interleaved in every possible way with the calls of the
// program.
#include <pthread.h>
#include "sched.hpp"
#include "impl.hpp"
#include "gen.hpp"
#include "c16_io.hpp"
#include "c16_meta.inc"
using namespace model;
using mc::strf;

struct Stuck { std::string msg; };
static struct Collector {
    std::string file, name; bool newline;
    int at[2];                          // the calls of the program before which it acts
    int step, late, calls; bool running, gone;
    std::string log;
    void advance() {
        std::string text = name + (newline ? "\n" : "");
        if (step == 0) { int f = open(file.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600); close(f); }
        else { int f = open(file.c_str(), O_WRONLY | O_APPEND); if (::write(f, text.data(), text.size())) {} close(f); }
        step++;
        log += step == 1 ? " <created>" : " <written>";
    }
} C;
static void before(const char *what) {
    if (!C.running) return;
    C.running = false;                  // what follows are the collector's own calls
    while (C.step < 2 && C.calls >= C.at[C.step]) C.advance();
    C.log += std::string(" ") + what;
    if (++C.calls > 500) throw Stuck{"the program does not get through the handshake:" + C.log.substr(0, 400)};
    if (!strcmp(what, "open")) C.gone = access(C.file.c_str(), 0) != 0;
    C.running = true;
}
static int slept(unsigned) {
    if (!C.running) return 0;
    before("sleep");
    if (C.step == 2 && ++C.late > 20) { C.running = false; throw Stuck{"the collector has written the name, and the program still waits:" + C.log.substr(0, 400)}; }
    return 0;
}
static const std::vector<std::string> & names() {
    static std::vector<std::string> v;
    if (v.empty()) { v = {"/tmp/fifo1", "x", "a b", "\xc3\xa9%s%n", std::string(200, 'p'), std::string(1000, 'q'), std::string(1022, 'r')}; }
    return v;
}
static void setup_io(const std::string & file) { io::hook = before; io::slept = slept; setenv("C16_HANDSHAKE", file.c_str(), 1); }
static void reset_io() { C.running = false; io::hook = NULL; io::slept = NULL; io::next = NULL; unsetenv("C16_HANDSHAKE"); }

typedef std::vector<std::pair<int, int> > When;
static void rounds(mc::Ctx & c, int lang, const When & when, int name, bool newline) {
    const Rt & r = RTS[lang];
    static const char *nm[] = {"x", "t"}; static uint32_t ty[] = {1, 0, 4};
    c16_names = nm; c16_n_names = 2; c16_types = ty; c16_n_types = 1;
    std::string m;
    for (int k = 0; k < (int) when.size() && m.empty(); k++) {
        C.file = c.scratch + "/handshake"; C.name = names()[(name + k) % names().size()]; C.newline = newline; C.at[0] = when[k].first; C.at[1] = when[k].second;
        C.step = C.late = C.calls = 0; C.log = strf(" [%s]", C.name.substr(0, 20).c_str()); C.gone = false;
        unlink(C.file.c_str());
        io::next = io::open_log(); io::n_opened = 0; io::opened = "";
        setup_io(C.file);
        C.running = true;
        try { r.setup(); } catch (Stuck & s) { m = s.msg; }
        C.running = false;
        bool removed = access(C.file.c_str(), 0) != 0;
        int steps = C.step;
        reset_io();
        if (m.empty()) {
            if (steps < 2) m = "the program goes on before the collector has written the name:" + C.log;
            else if (io::n_opened != 1) m = strf("the program opens %d files", io::n_opened);
            else if (io::opened != C.name) m = "the program opens '" + io::opened.substr(0, 60) + strf("' (%zu bytes), the collector wrote '", io::opened.size()) + C.name.substr(0, 60) + strf("' (%zu bytes):", C.name.size()) + C.log;
            else if (!removed) m = "the program does not remove the handshake file:" + C.log;
            else if (!C.gone) m = "the program opens the pipe while the handshake file is still there, which the collector waits for:" + C.log;
            else {
                r.begin(5); r.end();
                Bytes b = io::content(); std::istringstream is(b);
                model::Trace t; t.names = {"x", "t"}; t.types = {{1, 0, 4}}; t.points = {{stmt(5)}};
                DTrace w; decode(encode(t), 0, w);
                try { ::Trace got(is, 0); m = diff(w, impl::dtrace(got)); } catch (std::exception & e) { m = std::string("the reader rejects the trace: ") + e.what(); }
            }
        }
        c.step(C.calls);
        c.state(mc::hash_str(C.log));
    }
    io::close_log();
    unlink((c.scratch + "/handshake").c_str());
    if (!m.empty()) c.fail(m);
}
// every position of the two steps of the collector among the calls
static std::pair<int, int> when(mc::Ctx & c, int n) { int i = c.choose(n), j = i + c.choose(n - i); return std::make_pair(i, j); }
SCENARIO(one_program) {
    int lang = c.choose(2), name = c.choose(names().size()), nl = c.choose(2); When w = {when(c, c.thorough ? 80 : 40)};
    if (!c.mine() || !C16_SETUP) return;
    c.describe(strf("%s: name %d, %s newline, collector before calls %d and %d", RTS[lang].lang, name, nl ? "with" : "without", w[0].first, w[0].second));
    rounds(c, lang, w, name, nl);
}
// a test case that runs the program several times
SCENARIO(programs_in_turn) {
    int lang = c.choose(2), n = 2 + (c.thorough ? c.choose(2) : 0), name = c.choose(2); When w;
    for (int i = 0; i < n; i++) w.push_back(when(c, n == 2 ? 11 : 7));
    if (!c.mine() || !C16_SETUP) return;
    c.describe(strf("%s: %d runs of the program, collector first before calls %d and %d", RTS[lang].lang, n, w[0].first, w[0].second));
    rounds(c, lang, w, name, false);
}
// nothing else is touched without a collector
SCENARIO(no_collector) {
    int lang = c.choose(2);
    if (!c.mine() || !C16_SETUP) return;
    c.describe(strf("%s: no handshake asked for", RTS[lang].lang));
    const Rt & r = RTS[lang];
    c16_names = NULL; c16_n_names = 0; c16_types = NULL; c16_n_types = 0;
    io::next = io::open_log(); io::n_opened = 0; unsetenv("C16_HANDSHAKE");
    static int calls; calls = 0;
    io::slept = [](unsigned) { if (++calls > 5) throw Stuck{"the program waits for a collector that is not there"}; return 0; };
    std::string m;
    try { r.setup(); } catch (Stuck & s) { m = s.msg; }
    io::slept = NULL; io::next = NULL;
    if (m.empty() && (io::n_opened != 1 || io::opened != "/dev/null")) m = "the program opens " + io::opened;
    io::close_log();
    if (!m.empty()) c.fail(m);
}
