// C06: the result of a read does not depend on how the bytes are delivered.
#include <dirent.h>
#include <dlfcn.h>
#include <pthread.h>
#include <sys/ioctl.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <thread>
#include <atomic>
#include "impl.hpp"
#include "gen.hpp"
using namespace model;

// ---- scripted short reads -------------------------------------------------
static std::vector<int> g_script; static std::atomic<int> g_calls; static std::atomic<bool> g_short(false);
extern "C" ssize_t read(int fd, void *buf, size_t n) {
    typedef ssize_t (*F)(int, void *, size_t);
    static F real = (F) dlsym(RTLD_NEXT, "read");
    if (g_short.load() && n > 0) {
        int i = g_calls.fetch_add(1);
        size_t k = g_script[i % g_script.size()];
        if (k && n > k) n = k;
    }
    return real(fd, buf, n);
}
static int open_fds() {
    int n = 0; DIR *d = opendir("/proc/self/fd");
    if (!d) abort();
    while (readdir(d)) n++;
    closedir(d);
    return n;
}
static model::Trace base(int k) {
    model::Trace t; t.names = {"a", "", "ccc"}; t.types = {{2, FS, 2}, {1, FP, 8}, {0, FB, 0}};
    t.points = {{stmt(0x8000000000000001ull), var(0, 0, le(0xfffe, 2)), aux(7)}};
    if (k >= 1) t.points.push_back({buf(0x1000, 0x40), stmt(2), var(1, 1, le(0x1008, 8)), var(2, 2, "blobblob")});
    if (k >= 2) for (int i = 0; i < 900; i++) t.points.push_back({stmt(i), var(2, 2, Bytes(i % 40, 'x')), aux(i), var(0, 0, le(i, 2))});
    if (k >= 3) { t.points.push_back({stmt(9), var(2, 2, Bytes(150000, 'y')), aux(3)}); t.points.push_back({stmt(10)}); }
    return t;
}
struct Result { bool ok; std::string diff; };
// one read through the C interface: HOW 0 read_trace, 1 add_trace
static Result call(const std::string & f, int how, uint32_t timeout, uint64_t max, const DTrace & w) {
    Result r; r.ok = false;
    if (how == 0) {
        void *t = read_trace(f.c_str(), timeout, max);
        if (t) { r.ok = true; r.diff = impl::cdiff(w, t); free_trace(t); }
    } else {
        void *db = create_db();
        r.ok = add_trace(db, f.c_str(), timeout, max);
        if (r.ok) r.diff = n_traces(db) == 1 ? impl::cdiff(w, get_trace(db, 0)) : "wrong number of traces";
        else if (n_traces(db)) r.diff = "failed add changed the database";
        free_db(db);
    }
    return r;
}
static void verdict(mc::Ctx & c, const Bytes & b, uint64_t max, const Result & r, int fds, Status st) {
    c.check(open_fds() == fds, strf("the call left %d file descriptor(s) open", open_fds() - fds));
    if (st == OK) { c.check(r.ok, "the read fails"); c.check(r.diff.empty(), r.diff); }
    else { c.check(!r.ok, "an unreadable trace is accepted"); c.check(r.diff.empty(), r.diff); }
}

// ---- pipes ---------------------------------------------------------------
struct Chunk { size_t n; double pause; };     // pause before it, seconds
// Deliver B through a FIFO; MODE 0 writer opens when the reader is there,
// 1 first chunk already in the pipe when the reader opens.
static void deliver(mc::Ctx & c, const Bytes & b, const std::vector<Chunk> & chunks, int mode, int how, uint32_t timeout, uint64_t max = 0, double min_t = 0) {
    DTrace w; Status st = decode(b, max, w);
    std::string f = c.scratch + "/fifo"; unlink(f.c_str());
    if (mkfifo(f.c_str(), 0600)) abort();
    std::atomic<bool> done(false);
    int pre = -1; size_t first = 0;
    if (mode == 1) {
        pre = open(f.c_str(), O_RDWR | O_NONBLOCK); if (pre < 0) abort();
        if (!chunks.empty()) { first = std::min<size_t>(chunks[0].n, 60000); if (::write(pre, b.data(), first) != (ssize_t) first) abort(); }
    }
    int fds = open_fds();
    // write N more bytes, or stop when the reader has returned
    auto put = [&](int fd, size_t & o, size_t upto) -> bool {
        while (o < upto) {
            ssize_t k = ::write(fd, b.data() + o, upto - o);
            if (k < 0 && errno == EAGAIN && !done) { usleep(20); continue; }
            if (k <= 0) return false;
            o += k;
        }
        return true;
    };
    auto writer = [&]() {
        int fd = pre;
        size_t o = first, i = 0;
        if (mode == 0) {
            if (!chunks.empty() && chunks[0].pause > 0.0005) usleep(chunks[0].pause * 1e6);
            // wait for a reader, but not for ever
            while ((fd = open(f.c_str(), O_WRONLY | O_NONBLOCK)) < 0) { if (done) return; usleep(20); }
        } else if (!chunks.empty()) i = 1;
        size_t upto = first;
        if (mode == 1 && !chunks.empty()) {     // the rest of the first chunk
            upto = chunks[0].n;
            put(fd, o, upto);
        }
        for (; i < chunks.size(); i++) {
            // let the reader take what is there and block
            for (;;) { int left = 0; if (ioctl(fd, FIONREAD, &left) || !left || done) break; usleep(5); }
            if (!(mode == 0 && i == 0)) { if (chunks[i].pause > 0) usleep(chunks[i].pause * 1e6); else sched_yield(); }
            upto = o + chunks[i].n;
            if (!put(fd, o, upto)) { close(fd); return; }
        }
        if (mode == 1) for (;;) { int left = 0; if (ioctl(fd, FIONREAD, &left) || !left || done) break; usleep(5); }
        close(fd);
    };
    double t0 = mc::now();
    std::thread th(writer);
    Result r = call(f, how, timeout, max, w);
    double dt = mc::now() - t0;
    done = true; th.join();
    unlink(f.c_str());
    int now_fds = open_fds() + (mode == 1 ? 1 : 0);
    c.check(now_fds == fds, strf("the call left %d file descriptor(s) open", now_fds - fds));
    c.step(chunks.size());
    if (st == OK) { c.check(r.ok, "the read fails"); c.check(r.diff.empty(), r.diff); }
    else { c.check(!r.ok, "an unreadable trace is accepted"); c.check(r.diff.empty(), r.diff); }
    if (min_t > 0) c.check(dt >= min_t, strf("returned after %.2f s", dt));
}
static std::string showc(const std::vector<Chunk> & v) {
    std::string s; for (size_t i = 0; i < v.size() && i < 12; i++) s += strf(" %zu@%.4f", v[i].n, v[i].pause);
    return s;
}
static const double P = 0.0002;
SCENARIO(one_cut) {
    int k = c.choose(2), mode = c.choose(2), how = c.choose(2);
    Bytes b = encode(base(k)); size_t at = c.choose(b.size() + 1);
    if (!c.mine()) return;
    std::vector<Chunk> ch = {{at, 0}, {b.size() - at, P}};
    c.describe(strf("mode %d how %d chunks", mode, how) + showc(ch)); c.state(mc::mix(at, k * 4 + mode * 2 + how));
    deliver(c, b, ch, mode, how, 20);
}
SCENARIO(two_cuts) {
    int k = c.choose(2);
    Bytes b = encode(base(k)); size_t i = c.choose(b.size()), j = i + c.choose(b.size() + 1 - i);
    if (k == 1 && !c.thorough && (i % 3 || j % 2)) return;
    if (!c.mine()) return;
    std::vector<Chunk> ch = {{i, 0}, {j - i, 0.00005}, {b.size() - j, 0.00005}};
    c.describe("chunks" + showc(ch)); c.state(mc::mix(i * 1000 + j, k));
    deliver(c, b, ch, 0, (i + j) & 1, 20);
}
// all chunks of one size
SCENARIO(equal_chunks) {
    static const std::vector<size_t> S = {1, 2, 3, 5, 7, 8, 9, 13, 16, 17, 31, 64, 100, 255, 511, 512, 1000, 1023, 1024, 2048, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 65535, 65536, 65537, 100000};
    int k = c.choose(4); size_t s = c.pick(S); int mode = c.choose(2), how = c.choose(2), max = c.choose(2);
    if (k >= 2 && s < 200 && !(c.thorough && s >= 13)) return;
    if (!c.mine()) return;
    Bytes b = encode(base(k)); std::vector<Chunk> ch;
    for (size_t o = 0; o < b.size(); o += s) ch.push_back(Chunk{std::min(s, b.size() - o), k < 2 ? 0.0001 : 0});
    c.describe(strf("%zu bytes in chunks of %zu, mode %d how %d", b.size(), s, mode, how)); c.state(mc::mix(s, k * 8 + mode * 4 + how * 2 + max));
    deliver(c, b, ch, mode, how, 20, max ? 2 : 0);
}
// truncated and malformed traces through pipes fail there too
SCENARIO(bad_through_pipe) {
    Bytes b = encode(base(1)); size_t at = c.choose(b.size()); int mode = c.choose(2), kind = c.choose(3);
    if (!c.mine()) return;
    Bytes x = kind == 0 ? b.substr(0, at) : b;
    if (kind == 1) x[at] = (char) (x[at] ^ 0x85);
    if (kind == 2) x = b.substr(0, at) + "\x7f" + b.substr(at);
    DTrace w; if (decode(x, 0, w) == DONTCARE) return;
    std::vector<Chunk> ch = {{x.size() / 2, 0}, {x.size() - x.size() / 2, P}};
    c.describe("bad trace through a pipe " + hex(x)); c.state(mc::mix(at, 77 + mode * 3 + kind));
    deliver(c, x, ch, mode, at & 1, 20);
}
// files: short reads in every pattern
SCENARIO(short_reads) {
    static const int K[] = {1, 2, 3, 7, 16, 0};
    int k = c.choose(3), n = 1 + c.choose(c.thorough ? 4 : 3); std::vector<int> s;
    for (int i = 0; i < n; i++) s.push_back(K[c.choose(6)]);
    int how = c.choose(2), cut = c.choose(2);
    if (!c.mine()) return;
    std::string d = strf("short reads, trace %d, how %d:", k, how); for (int x : s) d += strf(" %d", x);
    c.describe(d); c.state(mc::hash_str(d));
    Bytes b = encode(base(k)); if (cut) b.resize(b.size() - 4);
    std::string f = c.scratch + "/t.bin"; impl::write_file(f, b);
    DTrace w; Status st = decode(b, 0, w);
    int fds = open_fds();
    g_script = s; g_calls = 0; g_short = true;
    Result r; try { r = call(f, how, 5, 0, w); } catch (...) { g_short = false; throw; }
    g_short = false; c.step(g_calls.load());
    verdict(c, b, 0, r, fds, st);
}
// descriptors after every way a file can be bad, and after bounded reads
SCENARIO(descriptors) {
    Bytes b = encode(base(1)); size_t at = c.choose(b.size() + 1); int kind = c.choose(4), how = c.choose(2);
    if (!c.mine()) return;
    Bytes x = b; uint64_t max = 0;
    if (kind == 0) x = b.substr(0, at);
    if (kind == 1) { if (at == b.size()) return; x[at] = (char) (x[at] ^ 0x85); }
    if (kind == 2) { if (at == b.size()) return; x[at] = (char) 0xff; }
    if (kind == 3) max = at;
    c.describe(strf("file kind %d how %d: ", kind, how) + hex(x)); c.state(mc::mix(at, 99 + kind * 2 + how));
    std::string f = c.scratch + "/t.bin"; impl::write_file(f, x);
    DTrace w; Status st = decode(x, max, w);
    if (st == DONTCARE) return;
    int fds = open_fds();
    Result r = call(f, how, 5, max, w);
    verdict(c, x, max, r, fds, st); c.step();
}
// ---- paths that can not be opened ----------------------------------------
SCENARIO(unopenable) {
    static const uint32_t T[] = {0, 1, 30, 0x7fffffff, 0x80000000u, 0xffffffffu};
    int k = c.choose(10), how = c.choose(2); uint32_t t = T[c.choose(6)]; int m = c.choose(2);
    if (!c.mine()) return;
    std::string d = c.scratch + "/d", f; mkdir(d.c_str(), 0700);
    std::string good = c.scratch + "/good.bin"; impl::write_file(good, encode(base(0)));
    bool limit = false;
    switch (k) {
    case 0: f = d + "/missing"; break;
    case 1: f = d + "/no/such/dir"; break;
    case 2: f = ""; break;
    case 3: f = good + "/x"; break;                     // not a directory
    case 4: f = d + "/" + std::string(300, 'n'); break; // name too long
    case 5: f = d + "/loop"; unlink(f.c_str()); if (symlink("loop", f.c_str())) abort(); break;
    case 6: f = d + "/dangling"; unlink(f.c_str()); if (symlink("nowhere", f.c_str())) abort(); break;
    case 7: f = d; break;                               // a directory: opens, can not be read
    case 8: f = good; limit = true; break;              // no descriptor left
    case 9: {                                           // a socket
        f = d + "/s"; unlink(f.c_str()); struct sockaddr_un a; memset(&a, 0, sizeof a); a.sun_family = AF_UNIX;
        if (f.size() >= sizeof a.sun_path) return;
        strcpy(a.sun_path, f.c_str()); int s = socket(AF_UNIX, SOCK_STREAM, 0); if (bind(s, (struct sockaddr *) &a, sizeof a)) abort(); close(s); break; }
    }
    c.describe(strf("path kind %d, timeout %u, how %d", k, t, how)); c.state(mc::mix(k * 10 + how, t));
    int fds = open_fds();
    struct rlimit rl; getrlimit(RLIMIT_NOFILE, &rl);
    if (limit) { struct rlimit z = rl; z.rlim_cur = 0; setrlimit(RLIMIT_NOFILE, &z); }
    double t0 = mc::now();
    Result r = call(f, how, t, m, DTrace());
    double dt = mc::now() - t0;
    if (limit) setrlimit(RLIMIT_NOFILE, &rl);
    c.check(!r.ok, "a path that can not be opened is accepted"); c.check(r.diff.empty(), r.diff);
    c.check(t < 30 || dt < 10, strf("took %.1f s", dt));
    c.check(open_fds() == fds, strf("the call left %d file descriptor(s) open", open_fds() - fds));
    c.step();
}
// ---- timeouts ------------------------------------------------------------
SCENARIO(timeouts) {
    int k = c.choose(6 + 18), how = c.choose(2);
    if (!c.mine()) return;
    Bytes b = encode(base(1)); size_t h = b.size() / 2, n = b.size();
    c.state(mc::mix(k, how));
    struct Silent { int kind; uint32_t t; };
    if (k < 6) {            // no data: fails once the timeout has passed
        static const Silent S[] = {{0, 1}, {1, 1}, {0, 2}, {1, 2}, {0, 3}, {1, 3}};
        const Silent & s = S[k];
        c.describe(strf("%s, timeout %u, how %d", s.kind ? "silent writer" : "no writer", s.t, how));
        std::string f = c.scratch + "/fifo"; unlink(f.c_str()); if (mkfifo(f.c_str(), 0600)) abort();
        int wr = s.kind ? open(f.c_str(), O_RDWR) : -1;
        int fds = open_fds();
        double t0 = mc::now();
        Result r = call(f, how, s.t, 0, DTrace());
        double dt = mc::now() - t0;
        int left = open_fds() - fds;
        if (wr >= 0) close(wr);
        unlink(f.c_str());
        c.check(!r.ok, "a read without data succeeds"); c.check(r.diff.empty(), r.diff);
        c.check(dt > s.t - 0.1, strf("gave up after %.2f s", dt));
        c.check(dt < s.t + 15, strf("gave up only after %.2f s", dt));
        c.check(left == 0, strf("the call left %d file descriptor(s) open", left));
        return;
    }
    struct Late { std::vector<Chunk> ch; uint32_t t; int mode; double min_t; };
    static std::vector<Late> L;
    if (L.empty()) {
        L.push_back({{{n, 1.2}}, 10, 0, 1.1});                  // data within the timeout
        L.push_back({{{n, 1.2}}, 0, 0, 1.1});                   // no limit
        L.push_back({{{n, 0.3}}, 0, 0, 0.2});
        L.push_back({{{n, 0.3}}, 3, 0, 0.2});
        L.push_back({{{h, 0}, {n - h, 1.3}}, 1, 0, 1.2});       // the next chunk after more than the timeout
        L.push_back({{{h, 0}, {n - h, 1.3}}, 1, 1, 1.2});
        L.push_back({{{1, 0}, {n - 1, 1.3}}, 1, 0, 1.2});
        L.push_back({{{h, 0.4}, {10, 1.2}, {n - h - 10, 1.2}}, 1, 0, 2.7});
        L.push_back({{{h, 0.4}, {n - h, 1.2}}, 0, 0, 1.5});
        L.push_back({{{n - 1, 0}, {1, 1.5}}, 1, 0, 1.4});
        // (up to about 23 days: what select, poll and the like all can wait)
        L.push_back({{{n, 0.3}}, 4295, 0, 0.2});
        L.push_back({{{n, 0.3}}, 86400, 0, 0.2});
        L.push_back({{{n, 0.3}}, 1048576, 0, 0.2});
        L.push_back({{{n, 0.3}}, 2000000, 0, 0.2});
        L.push_back({{{n, 1.5}}, 256, 0, 1.4});
        L.push_back({{{n, 1.5}}, 65536, 0, 1.4});
        L.push_back({{{n, 0}, {0, 1.4}}, 1, 0, 1.3});           // complete, closed later
        L.push_back({{{0, 0}, {n, 0.8}}, 10, 1, 0});            // writer opens, writes later
    }
    if (L.size() != 18) abort();
    Late & l = L[k - 6];
    c.describe(strf("timeout %u mode %d chunks", l.t, l.mode) + showc(l.ch));
    deliver(c, b, l.ch, l.mode, how, l.t, 0, l.min_t);
}
// a writer that closes without writing: not a trace, and no waiting
SCENARIO(closed_empty) {
    static const uint32_t T[] = {0, 1, 30};
    int how = c.choose(2), ti = c.choose(3);
    if (!c.mine()) return;
    c.describe(strf("writer closes without data, timeout %u", T[ti])); c.state(mc::mix(how, 1234 + ti));
    deliver(c, "", std::vector<Chunk>(1, Chunk{0, 0.1}), 0, how, T[ti]);
}
