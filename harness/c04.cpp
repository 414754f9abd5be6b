// C04: malformed traces never corrupt memory and are never misread.
#include "new.hpp"
#include "impl.hpp"
#include "gen.hpp"
using namespace model;

static void go(mc::Ctx & c, const Bytes & b, const std::string & what, int how = impl::ALL) {
    c.describe(what + " bytes " + hex(b));
    c.state(mc::hash_str(b));
    Status st;
    std::string r = impl::read_agrees(c, b, 0, how, &st);
    c.count(st == OK ? "well_formed" : st == FAIL ? "malformed" : "unspecified");
    if (!r.empty()) c.fail(r);
}
static const std::vector<Bytes> & bases() {
    static std::vector<Bytes> v;
    if (v.empty()) {
        model::Trace t;
        t.names = {"i", "", "xy"};
        t.types = {{0, FU, 1}, {2, FS, 2}};
        t.points = {{stmt(5), var(1, 1, le(0xfffe, 2)), aux(7)}, {stmt(6)}};
        v.push_back(encode(t));
        model::Trace u;
        u.names = {"p", "q"};
        u.types = {{1, FP, 8}, {0, FB, 0}, {0, FB, 2}};
        u.points = {{stmt(1), buf(0x1000, 0x10), var(0, 0, le(0x1004, 8)), var(1, 1, "abc"), var(0, 2, "de")}, {buf(0x1000, 0), var(1, 0, le(0x1004, 8))}};
        v.push_back(encode(u));
        model::Trace w;
        w.names = {"f"};
        w.types = {{0, FF, 4}, {0, FF, 8}, {0, FS, 8}, {0, FU, 4}, {0, FS, 4}, {0, FS, 1}};
        w.points = {{stmt(1), var(0, 0, le(0x3fc00000, 4)), var(0, 1, le(0x4004000000000000ull, 8)), var(0, 2, le(-2, 8)), var(0, 3, le(~0u, 4)), var(0, 4, le(-3, 4)), var(0, 5, "\x80")}};
        v.push_back(encode(w));
        model::Trace e;
        e.points = {{stmt(1), aux(2)}};
        v.push_back(encode(e));
        model::Trace x; x.names = {"a"}; x.types = {{0, FU, 8}};
        v.push_back(encode(x));
    }
    return v;
}
SCENARIO(byte_substitution) {
    const Bytes & b = c.pick(bases());
    int at = c.choose(b.size()); int d = 1 + c.choose(255);
    if (!c.mine()) return;
    Bytes x = b; x[at] = (char) ((unsigned char) x[at] + d);
    go(c, x, mc::strf("byte %d changed", at), c.thorough ? impl::ALL : at % 2 ? impl::CFILE | impl::CXX : impl::CDB);
}
SCENARIO(byte_insert_delete) {
    const Bytes & b = c.pick(bases());
    int at = c.choose(b.size()); int k = c.choose(18);
    if (!c.mine()) return;
    Bytes x = b;
    static const int vals[] = {0, 1, 2, 3, 4, 5, 6, 0x7f, 0x80, 0xff, 'a', 8, 16, 0x40};
    if (k < 14) x.insert(at, 1, (char) vals[k]);
    else x.erase(at, k - 13);
    go(c, x, mc::strf("byte %d inserted/deleted", at));
}
// a 32- or 64-bit field anywhere replaced by a boundary value
SCENARIO(field_substitution) {
    static const uint64_t V[] = {0, 1, 2, 3, 5, 6, 7, 8, 9, 12, 16, 17, 255, 256, 65535, 65536, 0x7fffffff, 0x80000000ull, 0xffffffffull, 0x100000000ull,
        0x7fffffffffffffffull, 0x8000000000000000ull, 0xffffffffffffffffull, 0xfffffffffffffff0ull, 0x10000000ull, 0x3fffffffull, 0x15555556ull};
    const Bytes & b = c.pick(bases());
    int w = c.choose(2) ? 8 : 4;
    int at = c.choose(b.size() - w + 1); int k = c.choose(sizeof V / sizeof *V);
    if (!c.mine()) return;
    Bytes x = b; x.replace(at, w, le(V[k], w));
    go(c, x, mc::strf("%d bytes at %d replaced", w, at));
}
// two bytes changed
SCENARIO(two_bytes) {
    static const int V[] = {0, 1, 2, 3, 4, 5, 9, 0x7f, 0x80, 0xff};
    const Bytes & b = bases()[c.thorough ? c.choose(5) : c.choose(2) * 4];
    int i = c.choose(b.size() - 1); int j = i + 1 + c.choose(b.size() - 1 - i);
    if (!c.thorough && j - i > 13) { c.choose(1); return; }
    int k = c.choose(10), l = c.choose(10);
    if (!c.mine()) return;
    Bytes x = b; x[i] = (char) V[k]; x[j] = (char) V[l];
    go(c, x, mc::strf("bytes %d and %d changed", i, j), impl::CFILE);
}
// every short byte string after a valid header; and as a whole file
SCENARIO(short_strings) {
    int where = c.choose(2), L = c.choose(3);
    Bytes s; for (int i = 0; i < L; i++) s += (char) c.choose(256);
    if (!c.mine()) return;
    Bytes h; if (where == 0) { model::Trace t; t.names = {"a"}; t.types = {{0, FB, 0}}; h = enc_header(t); }
    go(c, h + s, "short string", impl::CXX);
}
SCENARIO(tag_strings) {
    static const int V[] = {0, 1, 2, 3, 4, 5, 0xff};
    int L = c.choose(c.thorough ? 8 : 6);
    Bytes s; for (int i = 0; i < L; i++) s += (char) V[c.choose(7)];
    if (!c.mine()) return;
    model::Trace t; t.names = {"a"}; t.types = {{0, FB, 1}};
    // pad so that complete entries can follow every tag
    go(c, enc_header(t) + s + Bytes(9, '\0') + s, "tag string", impl::CXX);
}
// every format and size in a type record, with data behind it
SCENARIO(type_records) {
    std::vector<uint64_t> fs = {0, 1, 2, 3, 4, 5, 6, 255, 256, 0x7fffffff, 0x80000000, 0xffffffff, 0x10001};
    std::vector<uint64_t> ss; for (int i = 0; i <= 40; i++) ss.push_back(i);
    for (uint64_t v : {63, 64, 65, 127, 128, 255, 256, 257, 4096, 65535, 65536, 0x7fffffff, (int) 0x80000000, -1, -2, -8}) ss.push_back((uint32_t) v);
    uint64_t f = c.pick(fs), s = c.pick(ss); int data = c.choose(3);
    if (!c.mine()) return;
    Bytes b; put(b, 2, 8); b += Bytes("a\0", 2); put(b, 1, 4); put(b, 0, 4); put(b, f, 4); put(b, s, 4);
    b += '\x01' + le(3, 8) + '\x02' + le(0, 4) + le(0, 4) + Bytes(data == 0 ? 0 : data == 1 ? 8 : 200, '\0');
    go(c, b, mc::strf("type record %llx/%llx", (unsigned long long) f, (unsigned long long) s));
}
// references: every name and type index around the dictionary sizes
SCENARIO(references) {
    static const uint64_t V[] = {0, 1, 2, 3, 4, 255, 256, 65535, 65536, 0x7fffffff, 0x80000000ull, 0xfffffffeull, 0xffffffffull};
    int nn = c.choose(4), nt = nn ? c.choose(3) : 0;
    uint64_t n = V[c.choose(13)], y = V[c.choose(13)]; int where = c.choose(2);
    if (!c.mine()) return;
    model::Trace t;
    for (int i = 0; i < nn; i++) t.names.push_back(gen::nm(i));
    for (int i = 0; i < nt; i++) t.types.push_back(Type{0, FU, 4});
    if (where) t.types.push_back(Type{(uint32_t) n, FU, 4});
    t.points = {{stmt(1)}, {stmt(2), var(n, y, le(7, 4))}, {stmt(3)}};
    go(c, encode(t), mc::strf("%d names %d types, reference n%llx t%llx", nn, nt, (unsigned long long) n, (unsigned long long) y));
}
// unterminated and odd name dictionaries
SCENARIO(name_dictionaries) {
    int n = c.choose(8); Bytes s; for (int i = 0; i < n; i++) s += c.choose(2) ? 'a' : '\0';
    int cnt = c.choose(10); int ty = c.choose(3);
    if (!c.mine()) return;
    Bytes b = le(cnt, 8) + s + le(ty ? 1 : 0, 4);
    if (ty) b += le(ty - 1, 4) + le(0, 4) + le(4, 4);
    b += '\x01' + le(1, 8) + '\0';
    go(c, b, mc::strf("name dictionary of %d with count %d", n, cnt));
}
// long dictionaries with a defect at a place that only their length reaches
SCENARIO(long_dictionaries) {
    static const int N[] = {1, 2, 7, 8, 63, 64, 127, 128, 255, 256, 257, 1023, 1024, 4095, 4096, 4097, 65535, 65536, 65537};
    int n = N[c.choose(19)]; int kind = c.choose(6), at = c.choose(3);
    if (!c.mine()) return;
    c.describe(mc::strf("dictionary of length %d, kind %d at %d", n, kind, at));
    c.state(mc::mix(n, kind * 4 + at));
    Bytes b; uint32_t bad = at == 0 ? n - 1 : at == 1 ? n : n + 1;
    if (kind == 0) {            // one name of N characters, not terminated / terminated / terminated early
        Bytes s(n, 'x'); if (at == 1) s[n - 1] = 0; if (at == 2) s[n / 2] = 0;
        b = le(n, 8) + s + le(0, 4) + '\x01' + le(1, 8) + '\0';
    } else if (kind == 1) {     // N names; a variable around the last one
        for (int i = 0; i < n; i++) b += Bytes(1, 'a' + i % 26) + '\0';
        b = le(b.size(), 8) + b + le(1, 4) + le(0, 4) + le(FU, 4) + le(4, 4) + '\x01' + le(1, 8) + '\x02' + le(bad, 4) + le(0, 4) + le(7, 4) + '\0';
    } else if (kind == 2) {     // N names; a type around the last one
        for (int i = 0; i < n; i++) b += Bytes(1, 'a' + i % 26) + '\0';
        b = le(b.size(), 8) + b + le(1, 4) + le(bad, 4) + le(FU, 4) + le(4, 4) + '\x01' + le(1, 8) + '\x02' + le(0, 4) + le(0, 4) + le(7, 4) + '\0';
    } else if (kind == 3) {     // N types; a variable around the last one
        b = le(2, 8) + Bytes("a\0", 2) + le(n, 4);
        for (int i = 0; i < n; i++) b += le(0, 4) + le(FU, 4) + le(4, 4);
        b += '\x01' + le(1, 8) + '\x02' + le(0, 4) + le(bad, 4) + le(7, 4) + '\0';
    } else if (kind == 4) {     // N types; the last with a wrong format, size or name
        b = le(2, 8) + Bytes("a\0", 2) + le(n, 4);
        for (int i = 0; i < n; i++) { bool l = i == n - 1; b += le(l && at == 2 ? 1 : 0, 4) + le(l && at == 0 ? 7 : FU, 4) + le(l && at == 1 ? 3 : 4, 4); }
        b += '\x01' + le(1, 8) + '\x02' + le(0, 4) + le(n - 1, 4) + le(7, 4) + '\0';
    } else {                    // N points; then a bad tag, a bad reference, or the end in an entry
        b = le(2, 8) + Bytes("a\0", 2) + le(1, 4) + le(0, 4) + le(FU, 4) + le(4, 4);
        for (int i = 0; i < n; i++) b += '\x01' + le(i, 8) + '\0';
        b += at == 0 ? Bytes("\x07", 1) : at == 1 ? '\x02' + le(1, 4) + le(0, 4) + le(7, 4) + '\0' : '\x01' + le(1, 4);
    }
    Status st; std::string r = impl::read_agrees(c, b, 0, impl::CFILE | impl::CDB, &st);
    c.count(st == OK ? "well_formed" : st == FAIL ? "malformed" : "unspecified");
    if (!r.empty()) c.fail(r);
}
// blob sizes around what follows
SCENARIO(blob_sizes) {
    int have = c.choose(20); static const uint64_t V[] = {255, 256, 65535, 65536, 0x7fffffff, 0x80000000ull, 0xfffffff0ull, 0xffffffffull, 0x20000000ull};
    int k = c.choose(40 + 9);
    if (!c.mine()) return;
    uint64_t sz = k < 40 ? k : V[k - 40];
    model::Trace t; t.names = {"a"}; t.types = {{0, FB, 0}};
    Bytes b = enc_header(t) + '\x01' + le(9, 8) + '\x02' + le(0, 4) + le(0, 4) + le(sz, 4) + Bytes(have, '\0');
    go(c, b, mc::strf("blob size %llu, %d bytes follow", (unsigned long long) sz, have));
}
// declared counts beyond the file
SCENARIO(declared_counts) {
    static const uint64_t V[] = {0, 1, 2, 3, 4, 5, 100, 255, 256, 65535, 65536, 0x7fffffff, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0xffffffffffffffffull, 0x15555556, 0x100000001ull};
    int which = c.choose(2); uint64_t v = V[c.choose(20)]; int tail = c.choose(40);
    if (!c.mine()) return;
    Bytes b;
    if (which == 0) b = le(v, 8) + Bytes(tail, '\0');
    else b = le(2, 8) + Bytes("a\0", 2) + le(v, 4) + Bytes(tail, '\0');
    go(c, b, mc::strf("declared count %llx, %d bytes follow", (unsigned long long) v, tail));
}
// a failed read in the middle of others leaves the database alone
SCENARIO(failed_add) {
    int n = c.choose(3); const Bytes & b = c.pick(bases());
    int at = c.choose(b.size()); int d = c.choose(3);
    if (!c.mine()) return;
    Bytes x = b; x[at] = (char) ((unsigned char) x[at] ^ (d == 0 ? 0x80 : d == 1 ? 0x7f : 0x05));
    c.describe(mc::strf("%d good adds, then byte %d corrupted: ", n, at) + hex(x));
    DTrace want, bad; decode(bases()[0], 0, want);
    Status st = decode(x, 0, bad);
    std::string f = c.scratch + "/a.bin", g = c.scratch + "/b.bin";
    impl::write_file(f, bases()[0]); impl::write_file(g, x);
    void *db = create_db();
    for (int i = 0; i < n; i++) c.check(add_trace(db, f.c_str(), 5, 0), "good trace rejected");
    int r = add_trace(db, g.c_str(), 5, 0);
    c.step(n + 2);
    unsigned k = n + (r ? 1 : 0);
    c.check(st == DONTCARE || (r != 0) == (st == OK), "wrong result for the corrupted trace");
    c.check(n_traces(db) == k, mc::strf("database has %u traces, expected %u", n_traces(db), k));
    for (int i = 0; i < n; i++) { std::string m = impl::cdiff(want, get_trace(db, i)); if (!m.empty()) c.fail("earlier trace changed: " + m); }
    c.check(add_trace(db, f.c_str(), 5, 0) && n_traces(db) == k + 1, "good trace rejected after a bad one");
    std::string m = impl::cdiff(want, get_trace(db, k)); if (!m.empty()) c.fail("later trace: " + m);
    free_db(db);
}
