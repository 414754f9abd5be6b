// model.hpp -- reference model of the trace format, written from the format
// description and independent of the code under test.
#ifndef MODEL_HPP
#define MODEL_HPP
#include <cstdint>
#include <cstring>
#include <map>
#include <string>
#include <vector>
#include "mc.hpp"

namespace model {
typedef std::string Bytes;
enum { FU = 0, FS = 1, FF = 2, FP = 3, FB = 4 };

struct Type { uint32_t name; uint32_t format; uint32_t size; };
struct Entry {
    int tag;                    // 1 statement 2 variable 3 buffer size 4 auxiliary
    uint64_t a, b;              // statement / aux / address, size / name, type
    Bytes value;                // variable
    bool has_prefix;            // filled by encode
};
typedef std::vector<Entry> Point;   // entries without the end tag
struct Trace {
    std::vector<std::string> names;
    std::vector<Type> types;
    std::vector<Point> points;
};

static inline void put(Bytes & o, uint64_t v, int n) { for (int i = 0; i < n; i++) o += (char) (v >> (8 * i)); }
static inline Bytes le(uint64_t v, int n) { Bytes o; put(o, v, n); return o; }

static inline Entry stmt(uint64_t v) { return Entry{1, v, 0, "", false}; }
static inline Entry aux(uint64_t v) { return Entry{4, v, 0, "", false}; }
static inline Entry buf(uint64_t a, uint64_t s) { return Entry{3, a, s, "", false}; }
static inline Entry var(uint32_t n, uint32_t t, const Bytes & v) { return Entry{2, n, t, v, false}; }

static inline void enc_entry(Bytes & o, const Trace & t, const Entry & e) {
    o += (char) e.tag;
    switch (e.tag) {
    case 1: case 4: put(o, e.a, 8); break;
    case 3: put(o, e.a, 8); put(o, e.b, 8); break;
    case 2:
        put(o, e.a, 4); put(o, e.b, 4);
        if (e.b < t.types.size() && t.types[e.b].format == FB && t.types[e.b].size == 0)
            put(o, e.value.size(), 4);
        o += e.value;
        break;
    }
}
static inline Bytes enc_header(const Trace & t) {
    Bytes o; uint64_t n = 0;
    for (auto & s : t.names) n += s.size() + 1;
    put(o, n, 8);
    for (auto & s : t.names) { o += s; o += '\0'; }
    put(o, t.types.size(), 4);
    for (auto & y : t.types) { put(o, y.name, 4); put(o, y.format, 4); put(o, y.size, 4); }
    return o;
}
static inline Bytes encode(const Trace & t) {
    Bytes o = enc_header(t);
    for (auto & p : t.points) {
        for (auto & e : p) enc_entry(o, t, e);
        o += '\0';
    }
    return o;
}

// ---- decoded content -------------------------------------------------
struct DVar {
    uint32_t name, type, format, size;
    uint64_t u;                 // value, extended to 64 bits
    Bytes blob;
    uint64_t bsize; bool has;
    bool operator==(const DVar & o) const {
        return name == o.name && type == o.type && format == o.format && size == o.size &&
               (format == FB ? blob == o.blob : u == o.u) && has == o.has && (!has || bsize == o.bsize);
    }
};
struct DPoint {
    uint64_t counter, statement;
    std::vector<DVar> vars;
    std::vector<std::pair<uint64_t, uint64_t> > sizes;
    std::vector<uint64_t> aux;
    bool operator==(const DPoint & o) const {
        return counter == o.counter && statement == o.statement && vars == o.vars &&
               sizes == o.sizes && aux == o.aux;
    }
};
struct DTrace {
    std::vector<std::string> names;
    std::vector<Type> types;
    std::vector<DPoint> points;
    DTrace() {}
};
static inline bool operator==(const Type & a, const Type & b) {
    return a.name == b.name && a.format == b.format && a.size == b.size;
}

// live allocations
struct Live {
    std::map<uint64_t, uint64_t> m;
    void record(uint64_t addr, uint64_t size) {
        if (addr == UINT64_MAX) return;     // not a usable address
        if (size == 0) m.erase(addr); else m[addr] = size;
        if (addr + size < addr || size == UINT64_MAX) wrapped = true;
    }
    bool lookup(uint64_t p, uint64_t & size) const {
        if (p == UINT64_MAX) return false;
        auto it = m.upper_bound(p);
        if (it == m.begin()) return false;
        --it;
        if (p - it->first > it->second) return false;
        size = it->second - (p - it->first);
        return true;
    }
    bool wrapped;   // an allocation wraps around or fills the address space: no meaning
    Live() : wrapped(false) {}
};

enum Status { OK, FAIL, DONTCARE };

// Decode BYTES as the format prescribes.  DONTCARE: content outside the
// documented domain (scalar widths other than 1, 2, 4, 8).
struct Decoder {
    const Bytes & b; size_t p;
    bool dontcare;
    std::vector<size_t> ends;           // where each point ends
    Decoder(const Bytes & x) : b(x), p(0), dontcare(false) {}
    bool get(uint64_t & v, int n) {
        if (b.size() - p < (size_t) n) return false;
        v = 0;
        for (int i = 0; i < n; i++) v |= (uint64_t) (unsigned char) b[p + i] << (8 * i);
        p += n;
        return true;
    }
    Status run(uint64_t max, DTrace & d) {
        uint64_t n = 0, v = 0;
        if (!get(n, 8)) return FAIL;
        if (n > b.size() - p) return FAIL;
        if (n > 0) {
            if (b[p + n - 1] != 0) return FAIL;
            size_t end = p + n;
            while (p < end) {
                std::string s(b.c_str() + p);
                d.names.push_back(s);
                p += s.size() + 1;
            }
        }
        if (!get(n, 4)) return FAIL;
        for (uint64_t i = 0; i < n; i++) {
            Type t;
            if (!get(v, 4)) return FAIL; t.name = v;
            if (!get(v, 4)) return FAIL; t.format = v;
            if (!get(v, 4)) return FAIL; t.size = v;
            if (t.format > FB) return FAIL;
            if (t.name >= d.names.size()) return FAIL;
            d.types.push_back(t);
        }
        Live live;
        for (uint64_t i = 0; max == 0 || i < max; i++) {
            DPoint pt; pt.counter = i; pt.statement = 0;
            bool complete = false;
            while (p < b.size()) {
                unsigned char tag = b[p++];
                if (tag == 0) { complete = true; break; }
                if (tag > 4) return FAIL;
                if (tag == 1) { if (!get(pt.statement, 8)) return FAIL; }
                else if (tag == 4) { if (!get(v, 8)) return FAIL; pt.aux.push_back(v); }
                else if (tag == 3) {
                    uint64_t a, s;
                    if (!get(a, 8) || !get(s, 8)) return FAIL;
                    pt.sizes.push_back(std::make_pair(a, s));
                    live.record(a, s);
                    if (live.wrapped) dontcare = true;
                } else {
                    DVar x; x.u = 0; x.has = false; x.bsize = 0;
                    if (!get(v, 4)) return FAIL; x.name = v;
                    if (!get(v, 4)) return FAIL; x.type = v;
                    if (x.type >= d.types.size() || x.name >= d.names.size()) return FAIL;
                    x.format = d.types[x.type].format;
                    x.size = d.types[x.type].size;
                    if (x.format == FB) {
                        if (x.size == 0) { if (!get(v, 4)) return FAIL; x.size = v; }
                        if (x.size > b.size() - p) return FAIL;
                        x.blob = b.substr(p, x.size); p += x.size;
                    } else {
                        if (x.size > 8) return FAIL;
                        bool usual = x.size == 1 || x.size == 2 || x.size == 4 || x.size == 8;
                        if (!usual) {
                            if (x.format == FS) return FAIL;
                            dontcare = true;
                        }
                        if (!get(x.u, x.size)) return FAIL;
                        if (x.format == FS && x.size < 8 && (x.u >> (8 * x.size - 1) & 1))
                            x.u |= ~0ull << (8 * x.size);
                        if (x.format == FP) x.has = live.lookup(x.u, x.bsize);
                    }
                    pt.vars.push_back(x);
                }
            }
            if (!complete) break;
            d.points.push_back(pt);
            ends.push_back(p);
        }
        return OK;
    }
};
static inline Status decode(const Bytes & b, uint64_t max, DTrace & d) {
    Decoder x(b);
    Status s = x.run(max, d);
    return x.dontcare ? DONTCARE : s;
}

// ---- printing ----------------------------------------------------------
static inline std::string hex(const Bytes & b, size_t lim = 400) {
    std::string s;
    for (size_t i = 0; i < b.size() && i < lim; i++) s += mc::strf("%02x", (unsigned char) b[i]);
    if (b.size() > lim) s += mc::strf("...(%zu bytes)", b.size());
    return s;
}
static inline std::string show(const DVar & v) {
    std::string s = mc::strf("v(n%u t%u f%u sz%u ", v.name, v.type, v.format, v.size);
    if (v.format == FB) s += "blob:" + hex(v.blob, 32); else s += mc::strf("%016llx", (unsigned long long) v.u);
    if (v.has) s += mc::strf(" buf=%llu", (unsigned long long) v.bsize);
    return s + ")";
}
static inline std::string show(const DPoint & p) {
    std::string s = mc::strf("#%llu st=%llx", (unsigned long long) p.counter, (unsigned long long) p.statement);
    size_t k = 0;
    for (auto & v : p.vars) { if (k++ > 8) { s += " ..."; break; } s += " " + show(v); }
    k = 0;
    for (auto & z : p.sizes) { if (k++ > 8) { s += " ..."; break; } s += mc::strf(" b(%llx,%llx)", (unsigned long long) z.first, (unsigned long long) z.second); }
    k = 0;
    for (auto & a : p.aux) { if (k++ > 8) { s += " ..."; break; } s += mc::strf(" a%llx", (unsigned long long) a); }
    return s;
}
static inline std::string show(const Entry & e) {
    switch (e.tag) {
    case 1: return mc::strf("stmt(%llx)", (unsigned long long) e.a);
    case 4: return mc::strf("aux(%llx)", (unsigned long long) e.a);
    case 3: return mc::strf("buf(%llx,%llx)", (unsigned long long) e.a, (unsigned long long) e.b);
    default: return mc::strf("var(n%llu,t%llu,%s)", (unsigned long long) e.a, (unsigned long long) e.b, hex(e.value, 16).c_str());
    }
}
static inline std::string show(const Trace & t) {
    std::string s = mc::strf("names=%zu types=[", t.names.size());
    for (size_t i = 0; i < t.types.size() && i < 10; i++) s += mc::strf("%u/%u/%u ", t.types[i].name, t.types[i].format, t.types[i].size);
    s += "] points:";
    for (size_t i = 0; i < t.points.size() && i < 6; i++) {
        s += " {";
        for (size_t j = 0; j < t.points[i].size() && j < 10; j++) s += show(t.points[i][j]) + " ";
        s += "}";
    }
    if (t.points.size() > 6) s += mc::strf(" ...(%zu points)", t.points.size());
    return s;
}
// "" if equal, else a description of the first difference
static inline std::string diff(const DTrace & want, const DTrace & got) {
    if (want.names.size() != got.names.size())
        return mc::strf("number of names: expected %zu, got %zu", want.names.size(), got.names.size());
    for (size_t i = 0; i < want.names.size(); i++)
        if (want.names[i] != got.names[i]) return mc::strf("name %zu: expected '%.80s', got '%.80s'", i, want.names[i].c_str(), got.names[i].c_str());
    if (want.types.size() != got.types.size())
        return mc::strf("number of types: expected %zu, got %zu", want.types.size(), got.types.size());
    for (size_t i = 0; i < want.types.size(); i++)
        if (!(want.types[i] == got.types[i])) return mc::strf("type %zu: expected %u/%u/%u got %u/%u/%u", i,
            want.types[i].name, want.types[i].format, want.types[i].size, got.types[i].name, got.types[i].format, got.types[i].size);
    for (size_t i = 0; i < want.points.size() && i < got.points.size(); i++)
        if (!(want.points[i] == got.points[i]))
            return mc::strf("point %zu: ", i) + "expected " + show(want.points[i]) + ", got " + show(got.points[i]);
    if (want.points.size() != got.points.size())
        return mc::strf("number of points: expected %zu, got %zu", want.points.size(), got.points.size());
    return "";
}
} // namespace model
#endif
