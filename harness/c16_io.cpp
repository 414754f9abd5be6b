// c16_io.cpp -- the operations of the injected code on streams and files.
// Each is a scheduling point, and a point at which the process may crash.
// Compiled without instrumentation.
#include <errno.h>
#include <stdarg.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>
#include "sched_core.hpp"
#include "c16_io.hpp"

static int fd = -1;
static FILE *log_;
static bool recording;
static uint64_t ops;
static std::vector<io::Snap> *snaps_;
// set before any constructor runs
extern "C" { const char **c16_names; const void *c16_types; unsigned long c16_n_names, c16_n_types; }

namespace io {
FILE *next;
std::string opened; int n_opened;
void (*hook)(const char *what);
int (*slept)(unsigned);

FILE *open_log() {
    close_log();
    fd = memfd_create("c16", 0);
    log_ = fdopen(dup(fd), "w");
    ops = 0; recording = false;
    delete snaps_; snaps_ = new std::vector<Snap>;
    return log_;
}
std::string content() {
    std::string r; char b[65536]; off_t o = 0; ssize_t k;
    while ((k = pread(fd, b, sizeof b, o)) > 0) { r.append(b, k); o += k; }
    return r;
}
void finished(uint64_t id) { snaps_->push_back(Snap{id, content()}); }
void record(bool all) { recording = all; }
const std::vector<Snap> & snaps() { return *snaps_; }
uint64_t operations() { return ops; }
void close_log() {
    if (log_) { fclose(log_); log_ = NULL; }
    if (fd >= 0) { close(fd); fd = -1; }
}
}
static void op(FILE *f, bool unlocked = false) {
    if (!log_ || f != log_) return;
    ops++;
    if (recording) io::finished(0);
    if (unlocked) sched::touch(f, 8, true);
    sched::point(f, true);
}
extern "C" {
// what the setup code opens; NULL during start-up
FILE *c16_open_(const char *name) {
    if (!io::next) { static FILE *null; if (!null) null = fopen("/dev/null", "w"); return null; }
    io::opened = name; io::n_opened++;
    if (io::hook) io::hook("open");
    return io::next;
}
#define WRAP(ret, name, params, args, f) ret __real_##name params; ret __wrap_##name params { op(f); return __real_##name args; }
#define WRAPU(ret, name, params, args, f) ret __real_##name params; ret __wrap_##name params { op(f, true); return __real_##name args; }
WRAP(size_t, fwrite, (const void *p, size_t s, size_t n, FILE *f), (p, s, n, f), f)
WRAP(int, fputc, (int c, FILE *f), (c, f), f)
WRAP(int, putc, (int c, FILE *f), (c, f), f)
WRAP(int, fputs, (const char *s, FILE *f), (s, f), f)
WRAP(int, fflush, (FILE *f), (f), f)
WRAPU(size_t, fwrite_unlocked, (const void *p, size_t s, size_t n, FILE *f), (p, s, n, f), f)
WRAPU(int, fputc_unlocked, (int c, FILE *f), (c, f), f)
WRAPU(int, putc_unlocked, (int c, FILE *f), (c, f), f)
WRAPU(int, fputs_unlocked, (const char *s, FILE *f), (s, f), f)
WRAPU(int, fflush_unlocked, (FILE *f), (f), f)

// calls of the setup code; other code sees the plain functions
#define HOOK(w) if (io::hook) io::hook(w);
unsigned __real_sleep(unsigned);
unsigned __wrap_sleep(unsigned n) { if (io::slept) { io::slept(n); return 0; } return __real_sleep(n); }
int __real_usleep(useconds_t);
int __wrap_usleep(useconds_t n) { if (io::slept) { io::slept(1); return 0; } return __real_usleep(n); }
int __real_nanosleep(const struct timespec *, struct timespec *);
int __wrap_nanosleep(const struct timespec *a, struct timespec *b) { if (io::slept) { io::slept(1); return 0; } return __real_nanosleep(a, b); }
int __real_access(const char *, int);
int __wrap_access(const char *p, int m) { HOOK("access") return __real_access(p, m); }
FILE *__real_fopen(const char *, const char *);
FILE *__wrap_fopen(const char *p, const char *m) { HOOK("fopen") return __real_fopen(p, m); }
char *__real_fgets(char *, int, FILE *);
char *__wrap_fgets(char *b, int n, FILE *f) { HOOK("fgets") return __real_fgets(b, n, f); }
int __real_fclose(FILE *);
int __wrap_fclose(FILE *f) { HOOK("fclose") return __real_fclose(f); }
int __real_unlink(const char *);
int __wrap_unlink(const char *p) { HOOK("unlink") return __real_unlink(p); }
int __real_remove(const char *);
int __wrap_remove(const char *p) { HOOK("unlink") return __real_remove(p); }
}
