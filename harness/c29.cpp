// C29: the files of a project share one dictionary and have ids of their own.
#include "instr.hpp"
#include <ucontext.h>
#include <sys/mman.h>
using namespace ins;

// ---- the threads of task-map, one at a time ------------------------------
struct Co { ucontext_t ctx; bool done; std::string err; bool gave_up; V fn, arg, result; std::vector<V> values; int depth; std::vector<cl::Iter *> iters; };
struct Threads {
    std::vector<Co> co; ucontext_t home; int cur; long ops; std::vector<std::pair<long, int> > plan; int first; bool deadlock; std::map<V, std::pair<int, int> > held; uint64_t base; std::map<uint64_t, std::set<int> > used; std::set<uint64_t> *shared; long switches;
};
static Threads *g;
static const size_t STACK = 16 << 20;
static std::vector<void *> & stacks() { static std::vector<void *> s; return s; }
static void entry(int i) {
    Co & k = g->co[i];
    try { k.result = cl::call(k.fn, k.arg); } catch (cl::Unsupported & u) { k.err = u.what; k.gave_up = true; } catch (cl::LispError & e) { k.err = e.msg; } catch (...) { k.err = "non-local exit"; k.gave_up = true; }
    k.done = true; setcontext(&g->home);
}
static void to(int i) {         // leaves the current thread for I
    int me = g->cur; if (me == i) return; Co & a = g->co[me]; a.values = cl::state().values; a.depth = cl::state().depth; a.iters = cl::iters(); Co & b = g->co[i]; cl::state().values = b.values; cl::state().depth = b.depth; cl::iters() = b.iters; g->cur = i; g->switches++; swapcontext(&a.ctx, &b.ctx);
}
static int another(int t) { int n = g->co.size(); for (int d = 0; d < n; d++) { int i = (g->cur + 1 + t + d) % n; if (i != g->cur && !g->co[i].done) return i; } return -1; }
static void point(V h) {
    if (!g || g->cur < 0) return; uint64_t o = ((cl::Hash *) h)->made - g->base; g->used[o].insert(g->cur); if (g->shared && !g->shared->count(o)) return;
    long n = g->ops++; for (auto & p : g->plan) if (p.first == n) { int i = another(p.second); if (i >= 0) to(i); }
}
static void locking(V o, bool take) {
    if (!g || g->cur < 0) return; auto & h = g->held[o];
    if (!take) { h.second--; return; }
    for (int tries = 0; h.second && h.first != g->cur; tries++) { int i = another(tries); if (i < 0 || tries > 100) { g->deadlock = true; throw cl::LispError{"deadlock", nil()}; } to(i); }
    h.first = g->cur; h.second++;
}
// runs the items of A[2] under the plan of T
static V run_threads(Threads & t, Args & a) {
    Args it = cl::items(a[2]); g = &t; t.co.clear(); t.co.resize(it.size()); t.ops = 0; t.deadlock = false; t.held.clear(); t.used.clear(); t.switches = 0;
    while (stacks().size() < it.size()) stacks().push_back(mmap(NULL, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    auto values = cl::state().values; int depth = cl::state().depth; auto its = cl::iters();
    for (size_t i = 0; i < it.size(); i++) { Co & k = t.co[i]; k.done = false; k.gave_up = false; k.fn = a[1]; k.arg = it[i]; k.depth = depth; k.iters = its; getcontext(&k.ctx); k.ctx.uc_stack.ss_sp = stacks()[i]; k.ctx.uc_stack.ss_size = STACK; k.ctx.uc_link = NULL; makecontext(&k.ctx, (void (*)()) entry, 1, (int) i); }
    t.cur = -1; int next = it.empty() ? -1 : t.first % (int) it.size();
    while (next >= 0) { t.cur = next; Co & k = t.co[next]; cl::state().values = k.values; cl::state().depth = k.depth; cl::iters() = k.iters; swapcontext(&t.home, &k.ctx); next = -1; for (size_t i = 0; i < t.co.size(); i++) if (!t.co[i].done) next = i; }
    t.cur = -1; g = NULL; cl::state().values = values; cl::state().depth = depth; cl::iters() = its;
    Args r; for (auto & k : t.co) { if (k.gave_up) cl::unsupported(k.err); if (!k.err.empty()) throw cl::LispError{k.err, nil()}; r.push_back(k.result); } return list(r);
}

// ---- projects -------------------------------------------------------------
struct Project { std::vector<Program *> files; int main; bool other; Program all; std::vector<V> objs; V obj; Project() : main(-1), other(false), all(0) {} ~Project() { for (auto p : files) delete p; } };
// N files without main, MAIN: position of the one with main; OTHER: it is one of the other files
static void make(Project & q, int n, int main, bool other, int mode, const std::vector<std::string> & prefix, const std::vector<int> & base, bool sparse) {
    q.main = main; q.other = other; Stm d{'d', {}, {}}, a{'a', {}, {}};
    for (int i = 0; i < n; i++) { Program *p = new Program(mode); p->sparse = sparse; p->prefix = prefix[i % prefix.size()]; p->base = base[i % base.size()]; p->text("#include \"run.h\"\n"); if (sparse) p->function(mc::strf("f%d", i), {d}); else p->function(mc::strf("f%d", i), {d, Stm{'i', {a}, {}}, d}); q.files.push_back(p); }
    Program *m = new Program(other ? 0 : mode); m->sparse = sparse; m->prefix = "M"; m->text("#include \"run.h\"\n#include \"decl.h\"\n"); std::vector<std::string> calls; for (int i = 0; i < n; i++) calls.push_back(mc::strf("f%d", i)); m->main_(calls); q.files.insert(q.files.begin() + main, m);
    int id = 0; for (int i = 0; i <= n; i++) if (i != main) q.files[i]->finish(id++); q.files[main]->finish(id);
    q.all.mode = mode; for (auto p : q.files) q.all.at.insert(p->at.begin(), p->at.end());
}
static void objects(Project & q) {
    q.objs.clear(); Args ev, ot; for (size_t i = 0; i < q.files.size(); i++) { V o = q.files[i]->object(); q.objs.push_back(o); ((int) i == q.main && q.other ? ot : ev).push_back(cons(str(mc::strf("file%zu.c", i)), o)); }
    q.obj = sel::call("make-instance", {cl::sym(q.all.mode & CPP ? "cpp-project" : "c-project"), key("evolve-files"), list(ev), key("other-files"), list(ot)});
}
static void instrument_(Project & q, const std::string & file, int threads) { Args a = {q.obj}; for (V x : q.all.options()) a.push_back(x); a.push_back(key("trace-file")); a.push_back(str(file)); if (threads) { a.push_back(key("num-threads")); a.push_back(cl::num(threads)); } sel::call("instrument", a); }
static std::vector<std::string> texts(Project & q) { std::vector<std::string> r; for (V o : q.objs) r.push_back(genome(o)); return r; }
static void header(Machine & m) { spit(m.path("decl.h"), "int f0(int, int (*)(int)); int f1(int, int (*)(int)); int f2(int, int (*)(int));\n"); }
static std::vector<RPoint> reference_of(mc::Ctx & c, Machine & m, Project & q, bool & ok) {
    std::vector<std::string> t; for (size_t i = 0; i < q.files.size(); i++) t.push_back((int) i == q.main && q.other ? sel::text_of(q.files[i]->root) : "#include \"ref.h\"\n" + q.files[i]->ref); std::string err, r = m.build(t, q.all.mode, {ref_flag(m)}, err); ok = !r.empty(); if (!ok) { unsupported_program(c, "no reference program", t[0], err); return {}; }
    unlink(m.path("ref").c_str()); m.run(r); return reference(slurp(m.path("ref")));
}
static std::string judge(mc::Ctx & c, Machine & m, Project & q, const std::vector<RPoint> & ref, const std::vector<std::string> & t) {
    std::string err, p = m.build(t, q.all.mode, {"-lpthread"}, err); if (p.empty()) return "the instrumented project does not compile: " + err;
    unlink(m.path("trace").c_str()); m.run(p); std::map<uint64_t, Info> info; for (size_t i = 0; i < q.files.size(); i++) if (!((int) i == q.main && q.other)) infos(*q.files[i], info);
    return compare(c, ref, slurp(m.path("trace")), info, true);
}
// one after the other
SCENARIO(files) {
    static const std::vector<std::vector<std::string> > px = {{"v", "v", "v"}, {"v", "V", "w"}, {"x", "X", "M"}}; static const std::vector<std::vector<int> > bs = {{0, 0, 0}, {0, 5, 11}, {25, 33, 12}, {3, 3, 6}}; static const int modes[] = {0, FUNCTIONS, AFTER | FUNCTIONS, STRINGS | FUNCTIONS, FILTER | AFTER, CPP | FUNCTIONS | STRINGS};
    int n = 1 + c.choose(c.thorough ? 3 : 2), main = c.choose(n + 1), x = c.choose(px.size()), b = c.choose(c.thorough ? 4 : 3), mode = modes[c.thorough ? c.choose(6) : 2 + c.choose(4)], threads = 3 * c.choose(2); bool other = c.flip(); if (!c.mine()) return;
    c.describe(mc::strf("%d files, main is number %d%s, names %d, types %d, mode %d, %d threads", n, main, other ? " (not instrumented)" : "", x, b, mode, threads));
    sel::judged(c, [&] {
        Machine m(c); header(m); Project q; make(q, n, main, other, mode, px[x], bs[b], false); objects(q); std::vector<std::string> orig; for (auto p : q.files) orig.push_back(sel::text_of(p->root));
        Args order = cl::items(sel::call("instrumentation-files", {q.obj})); std::vector<V> want; for (int i = 0; i <= n; i++) if (i != main) want.push_back(q.objs[i]); if (!other) want.push_back(q.objs[main]); bool same = order.size() == want.size(); for (size_t i = 0; same && i < want.size(); i++) same = cl::cdr(order[i]) == want[i]; c.check(same, "instrumentation-files gives the files in another order");
        c.check(!cl::yes(sel::call("instrumented-p", {q.obj})), "instrumented-p is true of the original project"); instrument_(q, m.path("trace"), threads); c.check(cl::yes(sel::call("instrumented-p", {q.obj})), "instrumented-p is false of the instrumented project");
        bool ok; auto ref = reference_of(c, m, q, ok); if (!ok) return; std::string d = judge(c, m, q, ref, texts(q)); c.check(d.empty(), d);
        auto first = texts(q); sel::call("uninstrument", {q.obj}); c.check(texts(q) == orig, "uninstrument does not give the original files back"); c.check(!cl::yes(sel::call("instrumented-p", {q.obj})), "instrumented-p is true after uninstrument");
    });
}
// two programs made of the files of one project
SCENARIO(mains) {
    static const std::vector<std::vector<std::string> > px = {{"v", "v", "v"}, {"v", "V", "w"}, {"w", "M", "M"}}; static const std::vector<std::vector<int> > bs = {{0, 0, 0}, {0, 5, 11}, {25, 33, 12}}; static const int modes[] = {0, AFTER | FUNCTIONS, STRINGS | FUNCTIONS, CPP | FUNCTIONS};
    static const int perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}; int o = c.choose(6), x = c.choose(px.size()), b = c.thorough ? c.choose(bs.size()) : x, mode = modes[c.choose(4)]; if (!c.mine()) return; c.describe(mc::strf("files %d %d %d (1 and 2 have main), names %d, types %d, mode %d", perm[o][0], perm[o][1], perm[o][2], x, b, mode));
    sel::judged(c, [&] {
        Machine m(c); header(m); Project q; Stm d{'d', {}, {}}, a{'a', {}, {}};
        for (int i = 0; i < 3; i++) {
            int k = perm[o][i]; Program *p = new Program(mode); p->prefix = px[x][k]; p->base = bs[b][k]; p->text("#include \"run.h\"\n"); if (k) p->text("#include \"decl.h\"\n");
            if (!k) p->function("f0", {d, Stm{'i', {a}, {}}, d}); else { p->function(mc::strf("f%d", k), {d, a}); p->main_({"f0", mc::strf("f%d", k)}); } q.files.push_back(p);
        }
        int id = 0; std::vector<int> place(3); for (int i = 0; i < 3; i++) place[perm[o][i]] = i; q.files[place[0]]->finish(id++); for (int i = 0; i < 3; i++) if (perm[o][i]) q.files[i]->finish(id++);
        q.all.mode = mode; for (auto p : q.files) q.all.at.insert(p->at.begin(), p->at.end()); objects(q); std::vector<std::string> orig; for (auto p : q.files) orig.push_back(sel::text_of(p->root)); instrument_(q, m.path("trace"), 0); auto tx = texts(q);
        for (int k = 1; k < 3; k++) {
            std::string err, r = m.build({"#include \"ref.h\"\n" + q.files[place[0]]->ref, "#include \"ref.h\"\n" + q.files[place[k]]->ref}, mode, {ref_flag(m)}, err); if (r.empty()) { unsupported_program(c, "no reference program", q.files[place[k]]->ref, err); return; }
            unlink(m.path("ref").c_str()); m.run(r); auto ref = reference(slurp(m.path("ref"))); std::string p = m.build({tx[place[0]], tx[place[k]]}, mode, {"-lpthread"}, err); c.check(!p.empty(), "the instrumented project does not compile: " + err);
            unlink(m.path("trace").c_str()); m.run(p); std::map<uint64_t, Info> info; for (auto f : q.files) infos(*f, info); std::string e = compare(c, ref, slurp(m.path("trace")), info, true); c.check(e.empty(), mc::strf("program %d: ", k) + e);
        }
        sel::call("uninstrument", {q.obj}); c.check(texts(q) == orig, "uninstrument does not give the original files back");
    });
}
// in parallel: all schedules with at most two preemptions
SCENARIO(schedules) {
    static const std::vector<std::vector<std::string> > px = {{"v", "v"}, {"v", "w"}, {"x", "X"}}; static const std::vector<std::vector<int> > bs = {{0, 0}, {0, 5}, {25, 33}}; static const int SLICES = 16;
    int n = c.thorough ? 2 + c.choose(2) : 2, x = c.choose(px.size()), b = c.choose(bs.size()), first = c.choose(n), slice = c.choose(SLICES); if (!c.mine()) return; c.describe(mc::strf("%d files in parallel, names %d, types %d, file %d first, slice %d", n, x, b, first, slice));
    sel::judged(c, [&] {
        Machine m(c); header(m); Project q; make(q, n, n, false, FUNCTIONS, px[x], bs[b], true); bool ok; auto ref = reference_of(c, m, q, ok); if (!ok) return; std::map<std::string, std::string> seen; std::set<uint64_t> shared; Threads t; t.shared = NULL; t.first = first;
        cl::state().shared = point; cl::state().lock = locking; sel::g_task_map = [&](V, Args & a) { return run_threads(t, a); };
        auto go = [&] {
            c.alive(); objects(q); t.base = cl::Hash::counter(); instrument_(q, m.path("trace"), n); auto tx = texts(q); std::string all; for (auto & s : tx) all += s; c.step(t.ops); c.count("schedules"); auto i = seen.find(all); if (i == seen.end()) { c.count("outcomes"); seen[all] = judge(c, m, q, ref, tx); i = seen.find(all); }
            std::string pl; for (auto & p : t.plan) pl += mc::strf(" %ld", p.first); c.check(i->second.empty(), "switching at accesses" + (pl.empty() ? std::string(" none") : pl) + ": " + i->second); };
        t.plan.clear(); go(); for (auto & u : t.used) if (u.second.size() > 1) shared.insert(u.first); t.shared = &shared; go(); long N_ = t.ops;
        for (long k1 = slice; k1 <= N_ + 4; k1 += SLICES) for (int t1 = 0; t1 < n - 1; t1++) { t.plan = {std::make_pair(k1, t1)}; go(); for (long k2 = k1 + 1; k2 <= N_ + 4; k2++) for (int t2 = 0; t2 < n - 1; t2++) { t.plan = {std::make_pair(k1, t1), std::make_pair(k2, t2)}; go(); } }
        c.count("accesses", N_);
    });
}
