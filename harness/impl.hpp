// impl.hpp -- observes the code under test through its public interfaces.
#ifndef IMPL_HPP
#define IMPL_HPP
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <sstream>
#include <tuple>
#include "trace.h"
#include "QueryObjects.hpp"
#include "TraceDB.hpp"
#include "trace-db.h"
#include "model.hpp"

namespace impl {
using model::Bytes;

// the C++ library
static inline model::DVar dvar(const TraceVarInfo & v) {
    model::DVar d;
    d.name = v.getNameIndex(); d.type = v.getTypeIndex(); d.format = v.getTypeFormat();
    d.size = v.getSize(); d.u = 0; d.has = v.hasBufferSize() != 0; d.bsize = v.getBufferSize();
    if (d.format == model::FB) d.blob = Bytes((const char *) v.getValue().ptr, d.size);
    else d.u = v.getValue().u;
    return d;
}
static inline model::DPoint dpoint(const TracePoint & p) {
    model::DPoint d;
    d.counter = p.getCounter(); d.statement = p.getStatement();
    for (auto & v : p.getVars()) d.vars.push_back(dvar(v.get()));
    for (auto & s : p.getBufferSizes()) d.sizes.push_back(std::make_pair(s.getAddress(), s.getSize()));
    for (auto & a : p.getAux()) d.aux.push_back(a);
    return d;
}
static inline model::DTrace dtrace(const Trace & t) {
    model::DTrace d;
    for (auto & n : t.getNames()) d.names.push_back(n);
    for (auto & y : t.getTypes())
        d.types.push_back(model::Type{y.getNameIndex(), (uint32_t) y.getTypeFormat(), y.getSize()});
    for (auto & p : t.getPoints()) d.points.push_back(dpoint(p));
    return d;
}
// the C interface: compares against what the model expects; "" if equal
static inline std::string cdiff(const model::DTrace & w, const void *t) {
    using mc::strf;
    std::string r;
    if (n_names(t) != w.names.size()) return strf("n_names: expected %zu, got %u", w.names.size(), n_names(t));
    if (n_types(t) != w.types.size()) return strf("n_types: expected %zu, got %u", w.types.size(), n_types(t));
    if (trace_size(t) != w.points.size())
        return strf("trace_size: expected %zu, got %llu", w.points.size(), (unsigned long long) trace_size(t));
    const char **nm = get_names(t);
    for (size_t i = 0; i < w.names.size() && r.empty(); i++)
        if (w.names[i] != nm[i]) r = strf("get_names[%zu]: expected '%.60s', got '%.60s'", i, w.names[i].c_str(), nm[i]);
    free(nm);
    if (!r.empty()) return r;
    const char **ty = get_types(t);
    for (size_t i = 0; i < w.types.size() && r.empty(); i++)
        if (w.names[w.types[i].name] != ty[i]) r = strf("get_types[%zu]: expected '%.60s', got '%.60s'", i, w.names[w.types[i].name].c_str(), ty[i]);
    free(ty);
    if (!r.empty()) return r;
    c_trace_point_struct *ps = get_points(t);
    for (size_t i = 0; i < w.points.size() && r.empty(); i++) {
        const model::DPoint & p = w.points[i];
        if (ps[i].statement != p.statement) r = strf("get_points[%zu].statement", i);
        else if (ps[i].n_vars != p.vars.size()) r = strf("get_points[%zu].n_vars: expected %zu got %u", i, p.vars.size(), ps[i].n_vars);
        else if (ps[i].n_aux != p.aux.size()) r = strf("get_points[%zu].n_aux", i);
        for (size_t j = 0; j < p.aux.size() && r.empty(); j++)
            if (ps[i].aux[j] != p.aux[j]) r = strf("get_points[%zu].aux[%zu]", i, j);
        for (size_t j = 0; j < p.vars.size() && r.empty(); j++) {
            const model::DVar & v = p.vars[j]; const c_trace_var_info_struct & c = ps[i].vars[j];
            if (c.var_name_index != v.name || c.type_name_index != w.types[v.type].name ||
                (uint32_t) c.format != v.format || c.size != v.size ||
                (c.has_buffer_size != 0) != v.has || (v.has && c.buffer_size != v.bsize) ||
                (v.format == model::FB ? Bytes((const char *) c.value.ptr, c.size) != v.blob : c.value.u != v.u))
                r = strf("get_points[%zu].vars[%zu]: expected %s, got n%u tn%u f%u sz%u %016llx has%u buf%llu", i, j, model::show(v).c_str(),
                         c.var_name_index, c.type_name_index, (unsigned) c.format, c.size, (unsigned long long) c.value.u,
                         c.has_buffer_size, (unsigned long long) c.buffer_size);
        }
    }
    free_trace_points(ps, w.points.size());
    return r;
}

// objects of the library with the content D
static inline VarValue value_of(const model::DVar & v) {
    VarValue x; x.u = v.u;
    if (v.format == model::FB) {
        char *p = (char *) malloc(v.blob.size() + 1);   // variables never own their blobs
        memcpy(p, v.blob.data(), v.blob.size());
        x.u = 0; x.ptr = p;
    }
    return x;
}
static inline TraceVarInfo make(const model::DVar & v) {
    return TraceVarInfo(value_of(v), v.name, v.type, (type_format) v.format, v.size, v.has ? v.bsize : 0, v.has ? 1 : 0);
}
static inline TracePoint make(const model::DPoint & p) {
    TraceBufferSizes sizes; FlyweightTraceVarInfos vars; Aux aux;
    for (auto & s : p.sizes) sizes.push_back(TraceBufferSize(s.first, s.second));
    for (auto & v : p.vars) vars.push_back(FlyweightTraceVarInfo(make(v)));
    for (auto & a : p.aux) aux.push_back(a);
    return TracePoint(p.counter, p.statement, sizes, vars, aux);
}
static inline Trace make(const model::DTrace & d) {
    TypeDescriptions types; TracePoints points;
    for (auto & t : d.types) types.push_back(TypeDescription(t.name, (type_format) t.format, t.size));
    for (auto & p : d.points) points.push_back(make(p));
    return Trace(d.names, types, points);
}
static inline void touch(const void *t) {       // use everything a reader can get at
    const char **a = get_names(t), **b = get_types(t);
    volatile size_t n = 0;
    for (uint32_t i = 0; i < n_names(t); i++) n += strlen(a[i]);
    for (uint32_t i = 0; i < n_types(t); i++) n += strlen(b[i]);
    free(a); free(b);
    c_trace_point_struct *p = get_points(t);
    for (uint64_t i = 0; i < trace_size(t); i++)
        for (uint32_t j = 0; j < p[i].n_vars; j++)
            if (p[i].vars[j].format == BLOB)
                for (uint32_t k = 0; k < p[i].vars[j].size; k++) n += ((char *) p[i].vars[j].value.ptr)[k];
    free_trace_points(p, trace_size(t));
}

static inline void write_file(const std::string & f, const Bytes & b) {
    int fd = open(f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd < 0) { perror(f.c_str()); abort(); }
    size_t o = 0;
    while (o < b.size()) {
        ssize_t n = ::write(fd, b.data() + o, b.size() - o);
        if (n <= 0) { perror("write"); abort(); }
        o += n;
    }
    close(fd);
}

// Reads BYTES through every read interface and compares with the model.
// Returns "" or a difference.
enum { CXX = 1, CFILE = 2, CDB = 4, ALL = 7 };
static inline std::string read_agrees(mc::Ctx & c, const Bytes & b, uint64_t max, int how,
                                      model::Status *stp = NULL) {
    model::DTrace want;
    model::Status st = model::decode(b, max, want);
    if (stp) *stp = st;
    std::string r;
    c.step(want.points.size() + 1);
    if (how & CXX) {
        std::istringstream is(b);
        bool ok = true;
        try {
            Trace t(is, max);
            if (st == model::OK) {
                r = model::diff(want, dtrace(t));
                if (!r.empty()) return "Trace(istream): " + r;
            }
        } catch (std::exception & e) { ok = false; }
        if (st == model::OK && !ok) return "Trace(istream): rejects a readable trace";
        if (st == model::FAIL && ok) return "Trace(istream): accepts an unreadable trace";
    }
    std::string f = c.scratch + "/t.bin";
    if (how & (CFILE | CDB)) write_file(f, b);
    if (how & CFILE) {
        void *t = read_trace(f.c_str(), 5, max);
        if (st == model::OK) {
            if (!t) return "read_trace: rejects a readable trace";
            r = cdiff(want, t);
        } else if (st == model::FAIL && t) r = "accepts an unreadable trace";
        else if (t) touch(t);
        if (t) free_trace(t);
        if (!r.empty()) return "read_trace: " + r;
    }
    if (how & CDB) {
        void *db = create_db();
        int ok = add_trace(db, f.c_str(), 5, max);
        if (st == model::OK) {
            if (!ok) r = "rejects a readable trace";
            else if (n_traces(db) != 1) r = mc::strf("database has %u traces after a successful add", n_traces(db));
            else r = cdiff(want, get_trace(db, 0));
        } else if (st == model::FAIL) {
            if (ok) r = "accepts an unreadable trace";
            else if (n_traces(db) != 0) r = "database changed by a failed add";
        }
        free_db(db);
        if (!r.empty()) return "add_trace: " + r;
    }
    return "";
}
} // namespace impl
using mc::strf;
#endif
