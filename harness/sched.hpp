// sched.hpp -- controlled scheduling of the real code (see tsanrt.cpp).
//
// explore() runs BODY once per schedule, each time in a forked process, for
// every schedule with at most BOUND preemptions.  BODY creates threads; only
// one of them runs at a time and they are switched only before
// synchronization operations (locks, atomics, once-initialization, and the
// operations a harness marks).  Accesses to memory between those points are
// watched: two conflicting accesses which are not ordered by
// synchronization are a data race and reported, so that switching at other
// points could not show anything new.
#ifndef SCHED_HPP
#define SCHED_HPP
#include <cstdint>
#include <functional>
#include <string>
#include <vector>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>
#include "mc.hpp"
#include "sched_core.hpp"

namespace sched {
struct Result { uint64_t execs, points, accesses, maxdec; bool complete; };

static inline std::string where(const uint64_t *pc) {
    char exe[256]; ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1); if (n < 0) return "";
    exe[n] = 0;
    std::string cmd = mc::strf("addr2line -s -f -C -i -e %s", exe);
    bool any = false;
    for (int i = 0; i < 2; i++) if (pc[i]) { cmd += mc::strf(" 0x%llx", (unsigned long long) pc[i]); any = true; }
    if (!any) return "";
    FILE *f = popen((cmd + " 2>/dev/null").c_str(), "r"); if (!f) return "";
    std::string r; char b[512];
    while (fgets(b, sizeof b, f)) { std::string l = b; if (!l.empty() && l.back() == '\n') l.pop_back(); r += l.substr(0, 120) + "; "; }
    pclose(f);
    return r.substr(0, 1500);
}

// One execution; "" or what went wrong.
static inline std::string execute(Shared *s, const std::vector<uint8_t> & prefix, const std::function<std::string()> & body) {
    s->ndec = 0; s->points = s->races = s->threads = 0; s->done = 0; s->msg[0] = 0; s->accesses = 0;
    memset(s->where, 0, sizeof s->where);
    s->nprefix = prefix.size();
    for (size_t i = 0; i < prefix.size(); i++) s->prefix[i] = prefix[i];
    pid_t k = fork();
    if (k == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        alarm(60);
        begin(s);
        std::string m;
        try { m = body(); } catch (mc::Fail & f) { m = f.msg; } catch (std::exception & e) { m = std::string("exception: ") + e.what(); }
        end();
        if (!m.empty() && !s->msg[0]) { strncpy(s->msg, m.c_str(), sizeof s->msg - 1); }
        s->done = 1;
        _exit(0);
    }
    int st; while (waitpid(k, &st, 0) < 0 && errno == EINTR) {}
    std::string m = s->msg;
    if (!m.empty()) { if (s->races) m += " at " + where(s->where); return m; }
    if (WIFSIGNALED(st)) return WTERMSIG(st) == SIGALRM ? "an execution does not end" : mc::strf("crash: signal %d", WTERMSIG(st));
    if (!s->done || WEXITSTATUS(st)) return mc::strf("the process exits with status %d", WEXITSTATUS(st));
    return "";
}

static inline std::string schedule(const Shared *s) {
    std::string r; uint32_t last = 0;
    for (uint32_t i = 0; i < s->ndec && r.size() < 400; i++) if (s->dec[i].chosen) { r += mc::strf("%s%u:%u", r.empty() ? "" : " ", i, s->dec[i].chosen); last = i; }
    return r.empty() ? "no deviation" : r;
}

// All schedules with at most BOUND preemptions whose first deviation from
// the default schedule is at a decision congruent to PART.  Calls c.fail on
// the first schedule that goes wrong.
static inline Result explore(mc::Ctx & c, int bound, int part, int nparts, const std::function<std::string()> & body) {
    static Shared *s = NULL;
    if (!s) s = (Shared *) mmap(NULL, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    Result r = {0, 0, 0, 0, true};
    std::vector<uint8_t> prefix;
    struct Frame { uint8_t n, chosen, pre; };
    std::vector<Frame> st;              // the decisions of the last execution
    while (true) {
        std::string m = execute(s, prefix, body);
        r.execs++; r.points += s->points; r.accesses += s->accesses; if (s->ndec > r.maxdec) r.maxdec = s->ndec;
        c.step(s->ndec); c.alive();
        if (!m.empty()) c.fail(m + " (schedule " + schedule(s) + ")");
        if (s->ndec >= MAXDEC) c.fail("too many decisions");
        // a hash of the whole schedule is the state reached
        std::vector<uint8_t> all; for (uint32_t i = 0; i < s->ndec; i++) all.push_back(s->dec[i].chosen);
        c.state(mc::hash_bytes(all.data(), all.size(), mc::hash_str(c.desc)));
        // decisions up to the prefix are as asked; the rest are new
        st.resize(prefix.size());
        for (size_t i = prefix.size(); i < s->ndec; i++) st.push_back(Frame{s->dec[i].n, 0, s->dec[i].preempts});
        for (size_t i = 0; i < prefix.size(); i++) { st[i].n = s->dec[i].n; st[i].chosen = prefix[i]; st[i].pre = s->dec[i].preempts; }
        // backtrack
        while (!st.empty()) {
            size_t i = st.size() - 1;
            int used = 0, dev = 0;
            for (size_t k = 0; k < i; k++) { if (st[k].chosen) { dev++; if (st[k].pre) used++; } }
            Frame & f = st[i];
            bool can = f.chosen + 1 < f.n && (!f.pre || used + 1 <= bound);
            if (can && !dev && (int) (i % nparts) != part) can = false;         // another part explores it
            if (can) { f.chosen++; break; }
            st.pop_back();
        }
        if (st.empty()) break;
        prefix.clear(); for (auto & f : st) prefix.push_back(f.chosen);
        if (prefix.size() >= MAXPRE) c.fail("a schedule has too many decisions");
        if ((r.execs & 63) == 0 && mc::now() > c.deadline) { r.complete = false; c.capped = true; break; }
    }
    c.count("executions", r.execs); c.count("scheduling points", r.points); c.count("watched accesses", r.accesses);
    return r;
}
} // namespace sched
#endif
