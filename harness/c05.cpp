// C05: a bounded read yields exactly the first points.
#include "impl.hpp"
#include "gen.hpp"
using namespace model;

static Point point(int kind, uint64_t i) {
    switch (kind) {
    case 0: return {stmt(i + 1)};
    case 1: return {stmt(i), var(0, 0, le(i * 257, 2)), aux(i)};
    case 2: return {buf(0x1000 * (i + 1), 0x40), stmt(i), var(1, 1, le(0x1000 * i + 8, 8))};
    case 3: return {stmt(i), var(0, 2, Bytes(i, 'b')), var(1, 1, le(0x1010, 8)), buf(0x1000, i % 2 ? 0 : 0x20)};
    default: return {};
    }
}
static model::Trace base() {
    model::Trace t; t.names = {"a", "", "ccc"}; t.types = {{2, FS, 2}, {1, FP, 8}, {0, FB, 0}};
    return t;
}
static const std::vector<uint64_t> & limits() {
    static const std::vector<uint64_t> v = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 0xff, 0x100, 0xffffffffull, 0x100000000ull, 0x100000001ull, 0x100000002ull,
        0x7fffffffffffffffull, 0x8000000000000000ull, 0xffffffffffffffffull};
    return v;
}
// what an unbounded read of the whole gives, cut after N
static DTrace want(const Bytes & whole, uint64_t n) {
    DTrace d; if (decode(whole, 0, d) != OK) { fprintf(stderr, "oracle\n"); abort(); }
    if (n && d.points.size() > n) d.points.resize(n);
    return d;
}
static std::string read_all(mc::Ctx & c, const Bytes & b, uint64_t n, const DTrace & w) {
    {
        std::istringstream is(b);
        try { ::Trace t(is, n); std::string r = diff(w, impl::dtrace(t)); if (!r.empty()) return "Trace(istream): " + r; }
        catch (std::exception & e) { return "Trace(istream): bounded read fails"; }
    }
    std::string f = c.scratch + "/t.bin"; impl::write_file(f, b);
    void *t = read_trace(f.c_str(), 5, n);
    if (!t) return "read_trace: bounded read fails";
    std::string r = impl::cdiff(w, t); free_trace(t); if (!r.empty()) return "read_trace: " + r;
    void *db = create_db();
    if (!add_trace(db, f.c_str(), 5, n)) r = "add_trace: bounded read fails";
    else if (n_traces(db) != 1) r = "add_trace: wrong number of traces";
    else { r = impl::cdiff(w, get_trace(db, 0)); if (!r.empty()) r = "add_trace: " + r; }
    free_db(db);
    return r;
}
// every mixture of points, every limit
SCENARIO(limits) {
    model::Trace t = base();
    int n = c.choose(9);
    int how = n <= 3 ? 0 : c.choose(5);
    for (int i = 0; i < n; i++) t.points.push_back(point(n <= 3 ? c.choose(5) : (how + i) % 5, i));
    uint64_t m = c.pick(limits());
    if (!c.mine()) return;
    Bytes b = encode(t);
    c.describe(strf("limit %llu of %d points: ", (unsigned long long) m, n) + show(t));
    c.state(mc::mix(mc::hash_str(b), m)); c.step(n);
    std::string r = read_all(c, b, m, want(b, m));
    if (!r.empty()) c.fail(r);
}
// the same for long traces
SCENARIO(long_traces) {
    static const std::vector<uint64_t> N = {16, 100, 255, 256, 257, 1000, 4095, 4096, 4097, 65535, 65536, 65537, 131073};
    uint64_t n = c.pick(N); int d = c.choose(11);
    if (!c.mine()) return;
    uint64_t m = d < 5 ? n + d - 2 : d == 5 ? n / 2 : d == 6 ? 1 : d == 7 ? 10 : d == 8 ? 0 : d == 9 ? n | 0x100000000ull : 0x100000000ull;
    model::Trace t = base();
    for (uint64_t i = 0; i < n; i++) t.points.push_back(i % 3 ? Point{stmt(i)} : Point{stmt(i), var(0, 0, le(i, 2)), aux(i)});
    Bytes b = encode(t);
    c.describe(strf("limit %llu of %llu points", (unsigned long long) m, (unsigned long long) n));
    c.step(n);
    std::string r = read_all(c, b, m, want(b, m));
    if (!r.empty()) c.fail(r);
}
// what follows the first N points is cut short or garbage: every prefix and
// every replacement of the next bytes
SCENARIO(tails) {
    model::Trace t = base();
    int n = 1 + c.choose(c.thorough ? 5 : 3), k = c.choose(4);
    for (int i = 0; i < n; i++) t.points.push_back(point((k + i) % 4, i));
    Bytes whole = encode(t);
    Bytes tail;
    int kind = c.choose(5);
    if (kind == 0) {            // the next point cut anywhere
        model::Trace u = t; u.points.push_back(point(3, 5)); u.points.push_back(point(2, 6));
        Bytes x = encode(u).substr(whole.size());
        tail = x.substr(0, c.choose(x.size() + 1));
    } else if (kind == 1) tail = Bytes(1, (char) c.choose(256));
    else if (kind == 2) { tail = Bytes(1, '\x02') + le(c.choose(5), 4) + le(c.choose(5), 4) + Bytes(c.choose(9), '\x07'); }
    else if (kind == 3) tail = Bytes(c.choose(2) ? 1 : 5000, "\0\x01\x02\x05\xff"[c.choose(5)]);
    else { tail = Bytes(1, '\x02') + le(0, 4) + le(2, 4) + le(0xffffffffu - c.choose(3), 4); }
    if (!c.mine()) return;
    c.describe(strf("limit %d, then %s: ", n, hex(tail, 40).c_str()) + show(t));
    c.state(mc::hash_str(whole + tail)); c.step(n);
    std::string r = read_all(c, whole + tail, n, want(whole, 0));
    if (!r.empty()) c.fail(r);
}
// the first N points arrive through a pipe whose writer stays open and silent
SCENARIO(rest_never_arrives) {
    model::Trace t = base();
    int n = 1 + c.choose(c.thorough ? 6 : 4), k = c.choose(4), extra = c.choose(3), how = c.choose(2), big = c.choose(3);
    if (!c.mine()) return;
    if (big) t.names.push_back(std::string(big == 1 ? 4096 - 200 : 9000, 'n'));
    for (int i = 0; i < n; i++) t.points.push_back(point((k + i) % 4, i));
    Bytes b = encode(t), x = b;
    if (extra == 1) x += '\x01';                 // the next point has begun
    if (extra == 2) x += '\x01' + le(5, 8) + '\x02' + le(0, 4);
    c.describe(strf("pipe stays open after %d points, limit %d: ", n, n) + show(t));
    c.state(mc::mix(mc::hash_str(x), how)); c.step(n);
    std::string f = c.scratch + "/fifo"; unlink(f.c_str());
    if (mkfifo(f.c_str(), 0600)) abort();
    int fd = open(f.c_str(), O_RDWR);
    if (fd < 0 || ::write(fd, x.data(), x.size()) != (ssize_t) x.size()) abort();
    DTrace w = want(b, 0); std::string r;
    if (how) {
        void *tr = read_trace(f.c_str(), 5, n);
        if (!tr) r = "bounded read fails"; else { r = impl::cdiff(w, tr); free_trace(tr); }
    } else {
        void *db = create_db();
        if (!add_trace(db, f.c_str(), 5, n)) r = "bounded add fails"; else r = impl::cdiff(w, get_trace(db, 0));
        free_db(db);
    }
    close(fd); unlink(f.c_str());
    if (!r.empty()) c.fail(r);
}
