// c16_io.hpp -- the streams the injected code writes to (see c16_io.cpp)
#ifndef C16_IO_HPP
#define C16_IO_HPP
#include <stdint.h>
#include <stdio.h>
#include <string>
#include <vector>

namespace io {
struct Snap { uint64_t id; std::string bytes; };        // id 0: before an operation
FILE *open_log();                       // a stream to a file in memory
std::string content();                  // what a crash at this moment would leave
void finished(uint64_t id);             // the point ID was written
void record(bool all);                  // remember the content at every operation from now on
const std::vector<Snap> & snaps();
uint64_t operations();
void close_log();
extern FILE *next;                      // what the setup code opens
extern std::string opened; extern int n_opened;
extern void (*hook)(const char *what);  // called before calls of the setup code
extern int (*slept)(unsigned);
}
extern "C" { extern const char **c16_names; extern const void *c16_types; extern unsigned long c16_n_names, c16_n_types; }

typedef void (*c16_one)(uint32_t, uint32_t, const void *);
typedef void (*c16_two)(uint32_t, uint32_t, const void *, uint32_t, uint32_t, const void *);
#define RT_DECL(L) extern "C" { \
    void c16_##L##_begin(unsigned long long); void c16_##L##_end(void); void c16_##L##_buf(unsigned long long, unsigned long long); \
    void c16_##L##_blob(uint32_t, uint32_t, uint32_t, const void *); \
    void c16_##L##_blob2(uint32_t, uint32_t, uint32_t, const void *, uint32_t, uint32_t, uint32_t, const void *); \
    void c16_##L##_all(const void *const *); void c16_##L##_rev(const void *const *); void c16_##L##_id(int); void c16_##L##_many(int, const uint32_t *); void c16_##L##_many_blobs(int, const uint32_t *); \
    void c16_##L##_var(int, const void *, uint32_t, void *); void c16_##L##_header(const char **, unsigned long, const void *, unsigned long); \
    void c16_##L##_globals(void *, void *); unsigned long c16_##L##_type_size(void); const void *c16_##L##_get_descs(void); int c16_##L##_setup(void); \
    extern const c16_one c16_##L##_one[]; extern const c16_two c16_##L##_two[]; }
RT_DECL(c) RT_DECL(cxx)
struct Rt {
    const char *lang;
    void (*begin)(unsigned long long); void (*end)(void); void (*buf)(unsigned long long, unsigned long long);
    void (*blob)(uint32_t, uint32_t, uint32_t, const void *);
    void (*blob2)(uint32_t, uint32_t, uint32_t, const void *, uint32_t, uint32_t, uint32_t, const void *);
    void (*all)(const void *const *), (*rev)(const void *const *), (*id)(int), (*many)(int, const uint32_t *), (*many_blobs)(int, const uint32_t *);
    void (*var)(int, const void *, uint32_t, void *), (*header)(const char **, unsigned long, const void *, unsigned long);
    void (*globals)(void *, void *); unsigned long (*type_size)(void); const void *(*descs)(void); int (*setup)(void);
    const c16_one *one; const c16_two *two;
};
#define RT_(L) {#L, c16_##L##_begin, c16_##L##_end, c16_##L##_buf, c16_##L##_blob, c16_##L##_blob2, c16_##L##_all, c16_##L##_rev, c16_##L##_id, c16_##L##_many, c16_##L##_many_blobs, \
    c16_##L##_var, c16_##L##_header, c16_##L##_globals, c16_##L##_type_size, c16_##L##_get_descs, c16_##L##_setup, c16_##L##_one, c16_##L##_two}
static const Rt RTS[2] = {RT_(c), RT_(cxx)};
#endif
