// C16: the injected code writes traces that the reader accepts.
// The code is taken from instrumentation/c-cpp.lisp (see bin/ctext.py) and
// compiled as C and as C++.
#include <pthread.h>
#include "sched.hpp"
#include "impl.hpp"
#include "gen.hpp"
#include "c16_io.hpp"
#include "c16_meta.inc"
using namespace model;
using mc::strf;
extern "C" void mc_track_locks(int); extern "C" const char *mc_locks_bad(void);

static const size_t NK = sizeof C16_KINDS / sizeof *C16_KINDS, NIDS = sizeof C16_IDS / sizeof *C16_IDS;
static const uint32_t BLOB_T = NK;              // index of the blob type after the kinds
static model::Trace base() {
    model::Trace t; t.names = {"a", "b", "c", "type"};
    for (size_t k = 0; k < NK; k++) t.types.push_back({3, C16_KINDS[k].format, C16_KINDS[k].size});
    t.types.push_back({3, FB, 0});
    return t;
}
static void header(const Rt & r, const model::Trace & t) {
    std::vector<const char *> n; for (auto & s : t.names) n.push_back(s.c_str());
    std::vector<uint32_t> y; for (auto & x : t.types) { y.push_back(x.name); y.push_back(x.format); y.push_back(x.size); }
    r.header(n.data(), n.size(), y.data(), t.types.size());
}
static pthread_mutex_t lock_;
static void start(const Rt & r) {
    if (r.type_size() != 12) throw mc::Fail{strf("a type description has %lu bytes", r.type_size())};
    pthread_mutex_init(&lock_, NULL);
    r.globals(io::open_log(), &lock_);
    mc_track_locks(1);
}
// A point as the instrumented program writes it: one call for its scalars
// when there are one or two, one for each blob and buffer size.
static void write(const Rt & r, const model::Trace & t, const Point & p) {
    for (auto & e : p) {
        if (e.tag == 1) r.begin(e.a);
        else if (e.tag == 3) r.buf(e.a, e.b);
        else if (e.b == BLOB_T) r.blob(e.a, e.b, e.value.size(), e.value.data());
        else r.one[e.b](e.a, e.b, e.value.data());
    }
    r.end();
}
static std::string read_back(const Bytes & b, const model::Trace & t) {
    DTrace want; if (decode(encode(t), 0, want) == model::FAIL) return "harness: the expected trace is not well-formed";
    std::istringstream is(b);
    try {
        ::Trace got(is, 0);
        return diff(want, impl::dtrace(got));
    } catch (std::exception & e) { return std::string("the reader rejects the file: ") + e.what(); }
}
static std::string read_c(const std::string & dir, const Bytes & b, const model::Trace & t) {
    DTrace want; decode(encode(t), 0, want);
    impl::write_file(dir + "/t", b);
    void *db = create_db(); std::string r;
    if (!add_trace(db, (dir + "/t").c_str(), 5, 0)) r = "add_trace rejects the file";
    else r = impl::cdiff(want, get_trace(db, 0));
    free_db(db);
    return r;
}
// a crash which leaves B of the final content F
static std::string crash(const Bytes & b, const Bytes & f, const DTrace & all, size_t finished) {
    if (b.size() > f.size() || f.compare(0, b.size(), b)) return strf("after a crash the file (%zu bytes) is not a prefix of the trace", b.size());
    std::istringstream is(b); size_t n = 0; bool ok = true; std::string r;
    DTrace w; bool rejected = decode(b, 0, w) == model::FAIL;
    try {
        ::Trace got(is, 0); n = got.getPoints().size();
        DTrace d = impl::dtrace(got);
        for (size_t i = 0; i < n && r.empty(); i++) if (i >= all.points.size() || !(d.points[i] == all.points[i])) r = strf("after a crash point %zu differs", i);
    } catch (std::exception &) { ok = false; }
    if (!r.empty()) return r;
    if (ok == rejected) return strf("after a crash leaving %zu bytes the reader %s the file", b.size(), ok ? "accepts" : "rejects");
    if (ok && n < finished) return strf("after a crash %zu of %zu finished points are read", n, finished);
    // whether the rest is damaged or not, the finished points are in the file
    Decoder d(b); DTrace x; d.run(0, x);
    if (d.ends.size() < finished) return strf("after a crash the file has %zu of %zu finished points", d.ends.size(), finished);
    return "";
}
static void finish(mc::Ctx & c, const Rt & r, const model::Trace & t, bool capi = false) {
    io::record(false); mc_track_locks(0);
    if (const char *b = mc_locks_bad()) c.fail(b);
    Bytes last = io::content();
    std::string m = read_back(last, t);
    if (m.empty() && capi) m = read_c(c.scratch, last, t);
    c.step(t.points.size() + 1);
    c.state(mc::hash_bytes(last.data(), last.size(), 1));
    if (!m.empty()) c.fail(m);
    DTrace all; decode(encode(t), 0, all);
    size_t done = 0; uint64_t cuts = 0; const Bytes *prev = NULL;
    for (auto & s : io::snaps()) {
        if (s.id) done++;
        if (!s.id && prev && *prev == s.bytes) continue;
        prev = &s.bytes; cuts++;
        m = crash(s.bytes, last, all, done);
        if (!m.empty()) c.fail(m);
    }
    c.count("crash points", cuts);
    io::close_log();
}
static bool snan(const Bytes & b) {
    if (b.size() == 4) { uint32_t v; memcpy(&v, b.data(), 4); return (v & 0x7f800000) == 0x7f800000 && (v & 0x7fffff) && !(v & 0x400000); }
    return false;               // a double is passed as it is
}

// every C type, as the instrumenter writes it
SCENARIO(types) {
    const Rt & r = RTS[c.choose(2)]; int i = c.choose(c16_vars().size());
    const C16Var & v = c16_vars()[i];
    if (v.cxx && r.lang != RTS[1].lang) return;
    std::vector<Bytes> vals;
    if (v.blob) { for (int n = 0; n < 40; n++) { Bytes b; for (int k = 0; k < n; k++) b += (char) (1 + (k * 37 + n) % 255); vals.push_back(b); }
                  for (int k = 1; k < 256; k++) vals.push_back(Bytes(1, (char) k) + "z");
                  for (int n : {4094, 4095, 4096, 4097, 8192, 65535, 65536}) vals.push_back(Bytes(n, 'y'));
                  if (v.cxx) { vals.push_back(Bytes("a\0b", 3)); vals.push_back(Bytes(1, '\0')); } }
    else if (v.array) vals.push_back(Bytes(8, 0));
    else vals = gen::patterns(v.size);
    int k = c.choose(vals.size());
    if (!c.mine()) return;
    c.describe(strf("%s: %s%s, value %s", r.lang, v.decl, v.strings ? " (as string)" : "", model::hex(vals[k].substr(0, 40)).c_str()));
    if (v.format == FF && snan(vals[k])) return;
    model::Trace t; t.names = {"f", "x", "type"};
    for (auto & y : c16_vars()) t.types.push_back({2, y.format, y.size});
    start(r);
    std::vector<const char *> n; for (auto & s : t.names) n.push_back(s.c_str());
    r.header(n.data(), n.size(), r.descs(), t.types.size());
    Bytes out(8, 0);
    r.var(i, vals[k].c_str(), vals[k].size(), &out[0]);
    t.points = {{stmt(1000 + i), var(1, i, v.array && !v.blob ? out : vals[k])}};
    io::finished(1);
    finish(c, r, t, k < 4);
}
SCENARIO(supported) {
    if (!c.mine()) return;
    c.describe("types for which variables are recorded");
    c.check(!*C16_MISSING, std::string("variables of these types are not recorded: ") + C16_MISSING);
    if (*C16_NOTES) c.count(std::string("not understood: ") + C16_NOTES, 1);
}
SCENARIO(statement_ids) {
    const Rt & r = RTS[c.choose(2)]; int i = c.choose(NIDS), j = c.choose(2);
    if (!c.mine()) return;
    c.describe(strf("%s: statement %llu", r.lang, (unsigned long long) C16_IDS[i]));
    model::Trace t = base(); start(r); header(r, t);
    t.points.push_back({stmt(C16_IDS[i])});
    if (j) r.id(i); else { r.begin(C16_IDS[i]); r.end(); }
    finish(c, r, t);
}
SCENARIO(scalars) {             // each kind, every 8/16-bit value and patterns
    const Rt & r = RTS[c.choose(2)]; int k = c.choose(NK), ni = c.choose(3);
    if (!c.mine()) return;
    c.describe(strf("%s: many values of kind %s", r.lang, C16_KINDS[k].name));
    std::vector<Bytes> vals = gen::patterns(C16_KINDS[k].size);
    if (C16_KINDS[k].size <= 2) for (int x = 0; x < (1 << (8 * C16_KINDS[k].size)); x++) vals.push_back(le(x, C16_KINDS[k].size));
    model::Trace t = base(); start(r); header(r, t);
    for (size_t x = 0; x < vals.size(); x++) {
        if (C16_KINDS[k].format == FF && snan(vals[x])) continue;
        t.points.push_back({stmt(x + 1), var(ni, k, vals[x])});
        write(r, t, t.points.back());
    }
    finish(c, r, t, true);
}
SCENARIO(pairs) {               // two variables in one call
    const Rt & r = RTS[c.choose(2)]; int a = c.choose(NK), b = c.choose(NK);
    if (!c.mine()) return;
    c.describe(strf("%s: %s then %s in one call", r.lang, C16_KINDS[a].name, C16_KINDS[b].name));
    model::Trace t = base(); start(r); header(r, t);
    auto pa = gen::patterns(C16_KINDS[a].size), pb = gen::patterns(C16_KINDS[b].size);
    for (size_t i = 0; i < pa.size(); i++) for (size_t j = 0; j < 6; j++) {
        const Bytes & x = pa[i], & y = pb[(i + j * 5) % pb.size()];
        if ((C16_KINDS[a].format == FF && snan(x)) || (C16_KINDS[b].format == FF && snan(y))) continue;
        t.points.push_back({stmt(i * 10 + j), var(1, a, x), var(2, b, y)});
        r.begin(i * 10 + j); r.two[a * NK + b](1, a, x.data(), 2, b, y.data()); r.end();
    }
    finish(c, r, t);
}
SCENARIO(many_in_a_call) {
    const Rt & r = RTS[c.choose(2)]; int rev = c.choose(2), s = c.choose(80);
    if (!c.mine()) return;
    c.describe(strf("%s: all kinds in one call, order %d, values %d", r.lang, rev, s));
    model::Trace t = base(); start(r); header(r, t);
    std::vector<Bytes> v; std::vector<const void *> p; Point pt = {stmt(7)};
    for (size_t i = 0; i < NK; i++) {
        int k = rev ? NK - 1 - i : i; auto q = gen::patterns(C16_KINDS[k].size);
        size_t at = (s + 3 * i) % q.size(); while (C16_KINDS[k].format == FF && snan(q[at])) at = (at + 1) % q.size();
        v.push_back(q[at]); pt.push_back(var(i % 3, k, v.back()));
    }
    for (auto & b : v) p.push_back(b.data());
    r.begin(7); (rev ? r.rev : r.all)(p.data()); r.end();
    t.points.push_back(pt);
    finish(c, r, t);
}
SCENARIO(long_calls) {          // more variables than a byte or two can count
    const Rt & r = RTS[c.choose(2)]; int k = c.choose(C16_NLONG);
    if (!c.mine()) return;
    int n = C16_LONG[k]; c.describe(strf("%s: %d variables in one call", r.lang, n));
    model::Trace t = base(); start(r); header(r, t);
    Point pt = {stmt(8)}; std::vector<uint32_t> v; for (int i = 0; i < n; i++) { v.push_back(i * 2654435761u); pt.push_back(var(i % 3, 6, le(v.back(), 4))); }
    Point pb = {stmt(9)}; for (int i = 0; i < n; i++) pb.push_back(var(i % 3, BLOB_T, Bytes((const char *) &v[i], i % 5)));
    r.begin(8); r.many(k, v.data()); r.end(); t.points.push_back(pt);
    r.begin(9); r.many_blobs(k, v.data()); r.end(); t.points.push_back(pb);
    finish(c, r, t, true);
}
SCENARIO(buffer_sizes) {        // all pairs of boundary values
    const Rt & r = RTS[c.choose(2)]; auto ps = gen::patterns(8); int a = c.choose(ps.size());
    if (!c.mine()) return;
    uint64_t x; memcpy(&x, ps[a].data(), 8);
    c.describe(strf("%s: buffers at %llx", r.lang, (unsigned long long) x));
    model::Trace t = base(); start(r); header(r, t);
    for (auto & p : ps) {
        uint64_t y; memcpy(&y, p.data(), 8);
        t.points.push_back({stmt(1), buf(x, y), var(0, 6, le(7, 4))}); write(r, t, t.points.back());
        t.points.push_back({stmt(2), buf(x, 0)}); write(r, t, t.points.back());
    }
    finish(c, r, t, true);
}
SCENARIO(headers) {
    static const std::vector<std::string> nm = {"", "x", "yy", "struct s *", "\xc3\xa9\xff\x01"};
    const Rt & r = RTS[c.choose(2)]; int n = c.choose(5); model::Trace t;
    for (int i = 0; i < n; i++) t.names.push_back(c.pick(nm));
    int m = n ? c.choose(4) : 0;
    for (int i = 0; i < m; i++) t.types.push_back({(uint32_t) (i % n), C16_KINDS[(i * 5) % NK].format, C16_KINDS[(i * 5) % NK].size});
    if (!c.mine()) return;
    c.describe(strf("%s: header with %d names, %d types", r.lang, n, m));
    start(r); header(r, t);
    r.begin(3); r.end(); t.points.push_back({stmt(3)});
    finish(c, r, t, true);
}
SCENARIO(header_counts) {
    const Rt & r = RTS[c.choose(2)]; auto cs = gen::counts(c.thorough ? 300 : 80, c.thorough ? 262144 : 65536); int i = c.choose(cs.size()), kind = c.choose(3);
    if (!c.mine()) return;
    uint64_t n = cs[i];
    c.describe(strf("%s: %llu %s", r.lang, (unsigned long long) n, kind == 0 ? "names" : kind == 1 ? "types" : "bytes in a name"));
    model::Trace t; t.names = {"x"};
    if (kind == 0) for (uint64_t k = 0; k < n; k++) t.names.push_back(gen::nm(k));
    if (kind == 1) for (uint64_t k = 0; k < n; k++) t.types.push_back({0, C16_KINDS[k % NK].format, C16_KINDS[k % NK].size});
    if (kind == 2) t.names.push_back(Bytes(n, 'q'));
    start(r); io::record(n <= 100); header(r, t);
    r.begin(3); r.end(); t.points.push_back({stmt(3)});
    io::finished(1);
    finish(c, r, t);
}
SCENARIO(blobs) {
    const Rt & r = RTS[c.choose(2)]; auto cs = gen::counts(300, c.thorough ? 1 << 20 : 65536); int i = c.choose(cs.size()), two = c.choose(3);
    if (!c.mine()) return;
    uint64_t n = cs[i];
    c.describe(strf("%s: blob of %llu bytes, form %d", r.lang, (unsigned long long) n, two));
    model::Trace t = base(); start(r); header(r, t);
    Bytes b; for (uint64_t k = 0; k < n; k++) b += (char) (k * 131 + n);
    Point p = {stmt(5)};
    r.begin(5);
    if (two) { Bytes x(two == 1 ? 0 : 3, 'z'); r.blob2(0, BLOB_T, n, b.data(), 1, BLOB_T, x.size(), x.data()); p.push_back(var(0, BLOB_T, b)); p.push_back(var(1, BLOB_T, x)); }
    else { r.blob(2, BLOB_T, n, b.data()); p.push_back(var(2, BLOB_T, b)); }
    r.end(); io::finished(5);
    t.points.push_back(p); t.points.push_back({stmt(6)}); r.begin(6); r.end(); io::finished(6);
    finish(c, r, t, two == 0);
}
static Entry entry(int k) {
    switch (k) {
    case 0: return var(0, 0, le(200, 1));
    case 1: return var(1, 6, le(-7, 4));
    case 2: return var(2, 9, le(0x3ff8000000000000ull, 8));
    case 3: return var(0, 10, le(0x7000, 8));
    case 4: return var(1, BLOB_T, "");
    case 5: return var(2, BLOB_T, Bytes("\0\1\2\3", 4));
    case 6: return buf(0x7000, 32);
    case 7: return buf(0x7000, 0);
    default: return buf(UINT64_MAX - 100, 1ull << 40 >> 36);
    }
}
static const int NE = 9;
// all points of a few entries, and what a crash at every operation leaves
SCENARIO(points) {
    const Rt & r = RTS[c.choose(2)]; int n = c.choose(c.thorough ? 6 : 5); Point p = {stmt(9)};
    for (int i = 0; i < n; i++) p.push_back(entry(c.choose(NE)));
    if (!c.mine()) return;
    c.describe(strf("%s: a point of %d entries", r.lang, n));
    model::Trace t = base(); start(r); io::record(true); header(r, t);
    for (int k = 0; k < 2; k++) { p[0].a = 9 + k; t.points.push_back(p); write(r, t, p); io::finished(p[0].a); }
    finish(c, r, t);
}
SCENARIO(crash_points) {        // several points, stream buffer boundaries included
    const Rt & r = RTS[c.choose(2)]; int np = 1 + c.choose(4), big = c.choose(14);
    std::vector<int> w; for (int i = 0; i < np; i++) w.push_back(c.choose(3));
    if (!c.mine()) return;
    static const int sizes[] = {0, 10, 3900, 3980, 3990, 4000, 4010, 4040, 4060, 4080, 4096, 5000, 8192, 9000};
    c.describe(strf("%s: %d points, blob of %d bytes, shapes %d..", r.lang, np, sizes[big], w[0]));
    model::Trace t = base(); start(r); io::record(true); header(r, t);
    for (int i = 0; i < np; i++) {
        Point p = {stmt(i + 1)};
        if (w[i] == 0) p.push_back(entry(1));
        else if (w[i] == 1) p.push_back(var(1, BLOB_T, Bytes(sizes[big], 'b')));
        else { p.push_back(buf(0x9000, i)); p.push_back(entry(2)); p.push_back(entry(5)); }
        t.points.push_back(p); write(r, t, p); io::finished(i + 1);
    }
    finish(c, r, t);
}
SCENARIO(long_traces) {
    const Rt & r = RTS[c.choose(2)]; auto cs = gen::counts(20, c.thorough ? 65536 : 4096); int i = 1 + c.choose(cs.size() - 1);
    if (!c.mine()) return;
    c.describe(strf("%s: %llu points", r.lang, (unsigned long long) cs[i]));
    model::Trace t = base(); start(r); header(r, t);
    for (uint64_t k = 0; k < cs[i]; k++) { t.points.push_back({stmt(k + 1), entry(k % NE), entry((k / 3) % NE)}); write(r, t, t.points.back()); }
    // so far everything is finished; nothing may be left in a buffer
    c.check(read_back(io::content(), t) == "", "the finished points are not all in the file");
    finish(c, r, t);
}

// ---- threads
struct Job { const Rt *r; const model::Trace *t; std::vector<Point> points; };
static void *work(void *a) {
    Job & j = *(Job *) a;
    for (auto & p : j.points) { write(*j.r, *j.t, p); io::finished(p[0].a); }
    return NULL;
}
static std::string threads(const Rt & r, const std::vector<std::vector<Point> > & ps, int before) {
    model::Trace t = base();
    start(r);
    if (before == 2) {
        // by way of the setup code
        std::vector<const char *> n; for (auto & s : t.names) n.push_back(s.c_str());
        std::vector<uint32_t> y; for (auto & x : t.types) { y.push_back(x.name); y.push_back(x.format); y.push_back(x.size); }
        c16_names = n.data(); c16_n_names = n.size(); c16_types = y.data(); c16_n_types = t.types.size();
        io::next = io::open_log(); r.setup();
    } else header(r, t);
    model::Trace w = base();
    if (before == 1) { Point p = {stmt(99), entry(1)}; write(r, t, p); w.points.push_back(p); }
    std::vector<Job> jobs; for (auto & p : ps) jobs.push_back(Job{&r, &t, p});
    std::vector<pthread_t> th(ps.size());
    for (size_t i = 0; i < ps.size(); i++) if (pthread_create(&th[i], NULL, work, &jobs[i])) return "no thread";
    for (auto & x : th) pthread_join(x, NULL);
    sched::end();
    Bytes last = io::content();
    // the order in which the points arrived
    DTrace got; if (decode(last, 0, got) != model::OK) return "the file is not a well-formed trace";
    std::vector<size_t> at(ps.size());
    for (size_t i = w.points.size(); i < got.points.size(); i++) {
        bool hit = false;
        for (size_t k = 0; k < ps.size() && !hit; k++)
            if (at[k] < ps[k].size() && ps[k][at[k]][0].a == got.points[i].statement) { w.points.push_back(ps[k][at[k]]); at[k]++; hit = true; }
        if (!hit) return strf("point %zu (statement %llu) is not the next one of any thread", i, (unsigned long long) got.points[i].statement);
    }
    for (size_t k = 0; k < ps.size(); k++) if (at[k] != ps[k].size()) return strf("thread %zu: %zu of %zu points arrived", k, at[k], ps[k].size());
    std::string m = read_back(last, w);
    if (!m.empty()) return m;
    DTrace all; decode(encode(w), 0, all);
    for (auto & s : io::snaps()) {
        if (s.bytes.size() > last.size() || last.compare(0, s.bytes.size(), s.bytes)) return "the file changed what it had";
        Decoder d(s.bytes); DTrace x; d.run(0, x); bool hit = false;
        for (size_t i = 0; i < d.ends.size() && i < all.points.size(); i++) hit = hit || all.points[i].statement == s.id;
        if (!hit) return strf("after a crash the finished point %llu is not in the file", (unsigned long long) s.id);
    }
    return "";
}
static const int PARTS = 8;
static void explore(mc::Ctx & c, const Rt & r, const std::vector<std::vector<Point> > & ps, int before, int bound) {
    int part = c.choose(PARTS);
    if (!c.mine()) return;
    std::string s; for (auto & t : ps) { s += "["; for (auto & p : t) s += strf("%zu entries ", p.size()); s += "] "; }
    c.describe(strf("%s: threads %s, start %d, preemptions <= %d, part %d", r.lang, s.c_str(), before, bound, part));
    sched::explore(c, bound, part, PARTS, [&] { return threads(r, ps, before); });
}
static Point pt(uint64_t id, int k) {
    switch (k) {
    case 0: return {stmt(id)};
    case 1: return {stmt(id), entry(1)};
    case 2: return {stmt(id), entry(6), entry(3)};
    case 3: return {stmt(id), var(0, BLOB_T, Bytes(5, 'a' + id % 20))};
    case 4: return {stmt(id), entry(2), entry(0), var(1, BLOB_T, Bytes(4090, 'a' + id % 20)), entry(7)};
    default: return {stmt(id), entry(0), entry(1), entry(2), entry(3), entry(5)};
    }
}
static const int NPT = 6;
SCENARIO(two_threads) {
    const Rt & r = RTS[c.choose(2)]; int before = c.choose(3), a = c.choose(NPT), b = a + c.choose(NPT - a);
    explore(c, r, {{pt(1, a)}, {pt(2, b)}}, before, c.thorough ? 3 : 2);
}
SCENARIO(two_points_each) {
    const Rt & r = RTS[c.choose(2)]; int a = c.choose(NPT - 1), a2 = c.choose(3), b = c.choose(NPT - 1), b2 = c.choose(3);
    if (!c.thorough && (a == 4 || b > 2 || a2 > 1)) return;
    explore(c, r, {{pt(1, a), pt(2, a2)}, {pt(3, b), pt(4, b2)}}, 0, c.thorough ? 2 : 1);
}
SCENARIO(three_threads) {
    const Rt & r = RTS[c.choose(2)]; int a = c.choose(4), b = a + c.choose(4 - a), d = b + c.choose(4 - b);
    explore(c, r, {{pt(1, a)}, {pt(2, b)}, {pt(3, d)}}, 1, c.thorough ? 2 : 1);
}
// the setup code of a program that is not being traced
SCENARIO(setup) {
    const Rt & r = RTS[c.choose(2)]; int n = c.choose(4), m = n ? c.choose(4) : 0;
    if (!c.mine() || !C16_SETUP) return;
    c.describe(strf("%s: setup with %d names, %d types", r.lang, n, m));
    model::Trace t; std::vector<const char *> nm; std::vector<uint32_t> y;
    for (int i = 0; i < n; i++) t.names.push_back(gen::nm(i));
    for (int i = 0; i < m; i++) t.types.push_back({(uint32_t) (i % n), C16_KINDS[i].format, C16_KINDS[i].size});
    for (auto & s : t.names) nm.push_back(s.c_str());
    for (auto & x : t.types) { y.push_back(x.name); y.push_back(x.format); y.push_back(x.size); }
    c16_names = n ? nm.data() : NULL; c16_n_names = n; c16_types = m ? y.data() : NULL; c16_n_types = m;
    io::next = io::open_log(); io::n_opened = 0;
    unsetenv("C16_HANDSHAKE"); mc_track_locks(1);
    r.setup();
    io::next = NULL;
    c.check(io::n_opened == 1 && io::opened == "/dev/null", "without a collector the trace goes to " + io::opened);
    r.begin(1); r.end(); t.points.push_back({stmt(1)});
    finish(c, r, t);
}
