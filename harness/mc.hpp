// mc.hpp -- stateless explicit enumeration of bounded choice trees.
//
// A scenario is a function that makes nondeterministic choices with
// Ctx::choose(n) and then exercises the code under test.  The explorer
// runs it once for every sequence of choices (depth first, simplest first).
// Work is split over forked workers by case number; a worker that crashes,
// aborts or hangs is attributed to the case it was running.
#ifndef MC_HPP
#define MC_HPP
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace mc {

static inline double now() {
    struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

struct Fail { std::string msg; };
struct Stop {};                 // deadline reached

static inline std::string strf(const char *f, ...) {
    char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
    return b;
}

struct Shared {                 // one per worker, in shared memory
    volatile uint64_t beat;     // bumped per case
    volatile int scenario;
    volatile int len;
    volatile uint16_t path[512];
    volatile int in_case;
    char desc[4096];
};

struct Scenario;
struct Ctx {
    bool thorough;
    std::vector<int> path, arity;   // current sequence
    size_t pos;
    uint64_t index;                 // number of the case in this run
    int shard, nshards;
    bool replay;
    Shared *sh;
    int scenario;
    // counters
    uint64_t cases, transitions;
    std::unordered_set<uint64_t> states;
    std::map<std::string, uint64_t> counts;
    std::vector<std::string> samples;
    std::string desc;
    bool executed;
    std::string scratch;
    double deadline;
    bool capped;                    // an exploration inside a case was cut short

    Ctx() : thorough(false), pos(0), index(0), shard(0), nshards(1), replay(false),
            sh(NULL), scenario(0), cases(0), transitions(0), executed(false), deadline(0), capped(false) {}

    int choose(int n) {
        if (n <= 0) { fprintf(stderr, "choose(%d)\n", n); abort(); }
        if (pos == path.size()) {
            if (replay && false) {}
            path.push_back(0); arity.push_back(n);
        } else if (pos >= arity.size()) {
            arity.push_back(n);
        } else if (arity[pos] != n) {
            fprintf(stderr, "explorer: arity changed at %zu (%d -> %d): nondeterministic scenario\n",
                    pos, arity[pos], n);
            abort();
        }
        if (path[pos] >= n) { fprintf(stderr, "explorer: choice out of range\n"); abort(); }
        return path[pos++];
    }
    template <class T> const T & pick(const std::vector<T> & v) { return v[choose((int) v.size())]; }
    bool flip() { return choose(2) == 1; }

    // Call after generating the case and before executing it: false if
    // another worker runs it.
    bool mine() {
        if (replay) { begin(); return true; }
        bool m = (int) (index % nshards) == shard;
        if (m) begin();
        return m;
    }
    void begin() {
        executed = true;
        if (sh) {
            sh->scenario = scenario; sh->len = 0;
            size_t n = std::min<size_t>(path.size(), 512);
            for (size_t i = 0; i < n; i++) sh->path[i] = path[i];
            sh->len = n; sh->in_case = 1; sh->beat++;
        }
    }
    void describe(const std::string & d) {
        desc = d;
        if (sh) { strncpy(sh->desc, d.c_str(), sizeof sh->desc - 1); sh->desc[sizeof sh->desc - 1] = 0; }
    }
    void alive() { if (sh) sh->beat++; }
    void fail(const std::string & m) { throw Fail{m}; }
    void check(bool ok, const std::string & m) { if (!ok) throw Fail{m}; }
    void step(uint64_t n = 1) { transitions += n; }
    void state(uint64_t h) { if (states.size() < 4000000) states.insert(h); }
    void count(const std::string & k, uint64_t n = 1) { counts[k] += n; }
};

struct Scenario {
    const char *name;
    std::function<void(Ctx &)> fn;
    int tiers;                  // 1 quick, 2 thorough, 3 both
    bool sequential;            // run on a single worker
};
static std::vector<Scenario> & scenarios() { static std::vector<Scenario> v; return v; }
struct Register {
    Register(const char *n, std::function<void(Ctx &)> f, int tiers = 3, bool seq = false) {
        scenarios().push_back(Scenario{n, f, tiers, seq});
    }
};
#define SCENARIO(id)                                            \
    static void scen_##id(mc::Ctx & c);                         \
    static mc::Register reg_##id(#id, scen_##id, 3, false);     \
    static void scen_##id(mc::Ctx & c)
#define SCENARIO_T(id, tiers)                                   \
    static void scen_##id(mc::Ctx & c);                         \
    static mc::Register reg_##id(#id, scen_##id, tiers, false); \
    static void scen_##id(mc::Ctx & c)

static inline uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
    const unsigned char *c = (const unsigned char *) p;
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
    h ^= h >> 32; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29;
    return h;
}
static inline uint64_t hash_str(const std::string & s, uint64_t h = 1469598103934665603ull) {
    return hash_bytes(s.data(), s.size(), h);
}
static inline uint64_t mix(uint64_t a, uint64_t b) {
    uint64_t v[2] = {a, b}; return hash_bytes(v, sizeof v);
}

static std::string jstr(const std::string & s) {
    std::string o = "\"";
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
        else if (ch == '\n') o += "\\n";
        else if (ch < 32 || ch >= 127) o += strf("\\u%04x", ch);
        else o += ch;
    }
    return o + "\"";
}

static std::string pathstr(const std::vector<int> & p) {
    std::string s;
    for (size_t i = 0; i < p.size(); i++) s += strf(i ? ".%d" : "%d", p[i]);
    return s.empty() ? "-" : s;
}

struct Violation { std::string scenario, path, msg, desc; };

// advance to the next sequence; false when the tree is exhausted
static bool advance(Ctx & c) {
    c.path.resize(c.pos); c.arity.resize(c.pos);
    while (!c.path.empty()) {
        if (c.path.back() + 1 < c.arity.back()) { c.path.back()++; return true; }
        c.path.pop_back(); c.arity.pop_back();
    }
    return false;
}

static int worker(int shard, int nshards, bool thorough, Shared *sh, const std::string & out,
                  double deadline, const std::string & only) {
    Ctx c;
    c.thorough = thorough; c.shard = shard; c.nshards = nshards; c.sh = sh; c.deadline = deadline;
    c.scratch = out + strf("/w%d", shard);
    mkdir(c.scratch.c_str(), 0700);
    std::vector<Violation> viol;
    std::string incomplete;
    std::map<std::string, uint64_t> per;
    bool stop = false;
    for (size_t s = 0; s < scenarios().size() && !stop; s++) {
        Scenario & sc = scenarios()[s];
        if (!(sc.tiers & (thorough ? 2 : 1))) continue;
        if (!only.empty() && only != sc.name) continue;
        c.scenario = s; c.path.clear(); c.arity.clear(); c.index = 0;
        uint64_t before = c.cases;
        int here = 0;
        do {
            c.pos = 0; c.executed = false; c.desc.clear();
            try {
                sc.fn(c);
            } catch (Fail & f) {
                viol.push_back(Violation{sc.name, pathstr(std::vector<int>(c.path.begin(), c.path.begin() + c.pos)), f.msg, c.desc});
                here++;
            } catch (std::exception & e) {
                viol.push_back(Violation{sc.name, pathstr(std::vector<int>(c.path.begin(), c.path.begin() + c.pos)),
                                         std::string("unexpected exception: ") + e.what(), c.desc});
                here++;
            }
            if (sh) sh->in_case = 0;
            if (c.executed) {
                c.cases++;
                if (c.cases - before == 1 || (c.cases - before) == 97) {
                    if (c.samples.size() < 6 && !c.desc.empty())
                        c.samples.push_back(std::string(sc.name) + " [" + pathstr(c.path) + "] " + c.desc);
                }
            }
            c.index++;
            if (c.capped) { incomplete += std::string(sc.name) + " (time cap); "; c.capped = false; }
            if (here >= 3) { incomplete += std::string(sc.name) + " (stopped after violations); "; break; }
            if ((c.index & 15) == 0 && now() > deadline) {
                incomplete += std::string(sc.name) + " (time cap); "; stop = true; break;
            }
        } while (advance(c));
        per[sc.name] = c.cases - before;
    }
    std::string f = out + strf("/result.%d.json", shard);
    FILE *fp = fopen(f.c_str(), "w");
    fprintf(fp, "{\"cases\":%llu,\"transitions\":%llu,\"incomplete\":%s,\"violations\":[",
            (unsigned long long) c.cases, (unsigned long long) c.transitions, jstr(incomplete).c_str());
    for (size_t i = 0; i < viol.size(); i++)
        fprintf(fp, "%s{\"scenario\":%s,\"path\":%s,\"msg\":%s,\"desc\":%s}", i ? "," : "",
                jstr(viol[i].scenario).c_str(), jstr(viol[i].path).c_str(),
                jstr(viol[i].msg).c_str(), jstr(viol[i].desc).c_str());
    fprintf(fp, "],\"samples\":[");
    for (size_t i = 0; i < c.samples.size(); i++) fprintf(fp, "%s%s", i ? "," : "", jstr(c.samples[i]).c_str());
    fprintf(fp, "],\"counts\":{");
    bool first = true;
    for (auto & k : c.counts) { fprintf(fp, "%s%s:%llu", first ? "" : ",", jstr(k.first).c_str(), (unsigned long long) k.second); first = false; }
    fprintf(fp, "},\"scenarios\":{");
    first = true;
    for (auto & k : per) { fprintf(fp, "%s%s:%llu", first ? "" : ",", jstr(k.first).c_str(), (unsigned long long) k.second); first = false; }
    fprintf(fp, "}}\n");
    fclose(fp);
    fp = fopen((out + strf("/states.%d.bin", shard)).c_str(), "w");
    for (uint64_t h : c.states) fwrite(&h, 8, 1, fp);
    fclose(fp);
    return viol.empty() ? 0 : 1;
}

static int replay_case(const std::string & scen, const std::string & path, bool thorough, const std::string & out) {
    for (size_t s = 0; s < scenarios().size(); s++) {
        if (scen != scenarios()[s].name) continue;
        Ctx c; c.thorough = thorough; c.replay = true; c.scenario = s;
        c.scratch = out + "/replay"; mkdir(c.scratch.c_str(), 0700);
        c.deadline = now() + 1e6;
        const char *p = path.c_str();
        if (*p != '-') while (*p) { c.path.push_back(strtol(p, (char **) &p, 10)); if (*p == '.') p++; }
        try { scenarios()[s].fn(c); }
        catch (Fail & f) { printf("REPLAY-FAIL %s\ncase: %s\n", f.msg.c_str(), c.desc.c_str()); return 1; }
        catch (std::exception & e) { printf("REPLAY-FAIL unexpected exception: %s\ncase: %s\n", e.what(), c.desc.c_str()); return 1; }
        printf("REPLAY-OK\ncase: %s\n", c.desc.c_str());
        for (auto & k : c.counts) printf("%s: %llu\n", k.first.c_str(), (unsigned long long) k.second);
        return 0;
    }
    fprintf(stderr, "no such scenario: %s\n", scen.c_str());
    return 2;
}

// usage: harness run OUTDIR TIER NSHARDS DEADLINE_S HANG_S [SCENARIO]
//        harness replay OUTDIR TIER SCENARIO PATH
static int main_(int argc, char **argv) {
    signal(SIGPIPE, SIG_IGN);
    if (argc >= 6 && !strcmp(argv[1], "replay")) {
        return replay_case(argv[4], argv[5], !strcmp(argv[3], "thorough"), argv[2]);
    }
    if (argc < 7 || strcmp(argv[1], "run")) { fprintf(stderr, "usage\n"); return 2; }
    std::string out = argv[2];
    bool thorough = !strcmp(argv[3], "thorough");
    int n = atoi(argv[4]);
    double deadline = now() + atof(argv[5]);
    double hang = atof(argv[6]);
    std::string only = argc > 7 ? argv[7] : "";
    Shared *sh = (Shared *) mmap(NULL, sizeof(Shared) * n, PROT_READ | PROT_WRITE,
                                 MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::vector<pid_t> pids(n);
    for (int i = 0; i < n; i++) {
        pid_t p = fork();
        if (p == 0) {
            setpgid(0, 0);
            int fd = open((out + strf("/log.%d", i)).c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
            dup2(fd, 1); dup2(fd, 2); close(fd);
            int r = worker(i, n, thorough, &sh[i], out, deadline, only);
            fflush(NULL);
            _exit(r == 0 ? 0 : 3);
        }
        pids[i] = p;
    }
    std::vector<uint64_t> last(n, 0); std::vector<double> since(n, now());
    std::vector<bool> done(n, false);
    int left = n, rc = 0;
    std::string crashes;
    while (left) {
        for (int i = 0; i < n; i++) {
            if (done[i]) continue;
            int st;
            pid_t r = waitpid(pids[i], &st, WNOHANG);
            bool crash = false; std::string why;
            if (r == pids[i]) {
                done[i] = true; left--;
                kill(-pids[i], SIGKILL);
                if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
                if (WIFEXITED(st) && WEXITSTATUS(st) == 3) { rc = 1; continue; }
                crash = true;
                why = WIFSIGNALED(st) ? strf("crash: signal %d", WTERMSIG(st))
                                      : strf("crash: exit status %d", WEXITSTATUS(st));
            } else {
                if (sh[i].beat != last[i]) { last[i] = sh[i].beat; since[i] = now(); }
                else if (sh[i].in_case && now() - since[i] > hang) {
                    kill(-pids[i], SIGKILL); waitpid(pids[i], &st, 0);
                    done[i] = true; left--; crash = true; why = "hang";
                } else if (now() > deadline + 120) {
                    kill(-pids[i], SIGKILL); waitpid(pids[i], &st, 0);
                    done[i] = true; left--;     // slow, not a violation
                    continue;
                }
            }
            if (crash) {
                rc = 1;
                std::vector<int> p(sh[i].path, sh[i].path + sh[i].len);
                FILE *fp = fopen((out + strf("/crash.%d.json", i)).c_str(), "w");
                fprintf(fp, "{\"scenario\":%s,\"path\":%s,\"msg\":%s,\"desc\":%s,\"in_case\":%d}\n",
                        jstr(scenarios()[sh[i].scenario].name).c_str(), jstr(pathstr(p)).c_str(),
                        jstr(why).c_str(), jstr(sh[i].desc).c_str(), sh[i].in_case);
                fclose(fp);
            }
        }
        usleep(5000);
    }
    return rc;
}
} // namespace mc
#ifndef MC_NO_MAIN
int main(int argc, char **argv) { return mc::main_(argc, argv); }
#endif
#endif
