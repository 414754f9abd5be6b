// tsanrt.cpp -- a scheduler and race detector behind -fsanitize=thread.
//
// The code under test is compiled with -fsanitize=thread, but linked with
// this instead of libtsan.  Every access to memory and every atomic
// operation of the code calls in here, and the pthread functions it uses
// are replaced by models.  Exactly one thread runs at a time (the baton);
// which one is decided at every synchronization operation by the schedule
// the explorer gives.  Accesses are checked for races with vector clocks.
// This file itself must not be instrumented.
#include <cstdint>
#include <cstddef>
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdio.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include "sched_core.hpp"

extern "C" {
void *__libc_malloc(size_t); void __libc_free(void *); void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t); void *__libc_memalign(size_t, size_t);
size_t malloc_usable_size(void *);
extern char __executable_start, etext;
}

namespace sched {
enum { MAXT = 6, NSYNC = 1 << 13, NSHADOW = 1 << 17 };
enum Op { RUN, LOCK, RDLOCK, WRLOCK, COND, JOIN, GUARD, ONCE };
typedef uint32_t Clock;
struct Thread {
    bool used, done, signalled;
    Op op; void *obj; int peer;         // what it waits for before going on
    uint32_t go;                        // futex
    Clock vc[MAXT];
    uintptr_t lo, hi;                   // its stack
    pthread_t real;
    void *(*fn)(void *); void *arg, *ret;
    uintptr_t stack[8]; int depth;
};
struct Sync {                           // a lock, atomic variable, ...
    uintptr_t addr; Clock vc[MAXT], rvc[MAXT];
    int owner;                          // 0 free, else thread + 1
    int count, readers, state;
};
struct Cell {                           // 8 bytes of memory
    uintptr_t key; Clock w[MAXT], r[MAXT]; uint8_t wm[MAXT], rm[MAXT];
};
static Thread T[MAXT];
static Sync *S; static uint32_t used[NSYNC], nused;
static Cell *M; static uint32_t ncells;
static Shared *sh; static int on, cur, nthreads;
static uint32_t streak;
static __thread int self = -1;
static int (*real_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);

bool active() { return on && self >= 0; }

static void futex(uint32_t *a, int op, uint32_t v) { syscall(SYS_futex, a, op, v, NULL, NULL, 0); }
static void wake(int t) { __atomic_store_n(&T[t].go, 1, __ATOMIC_SEQ_CST); futex(&T[t].go, FUTEX_WAKE_PRIVATE, 1); }
static void sleep_(int t) {
    while (!__atomic_exchange_n(&T[t].go, 0, __ATOMIC_SEQ_CST)) futex(&T[t].go, FUTEX_WAIT_PRIVATE, 0);
}
static void die(const char *f, ...) __attribute__((noreturn));
static void die(const char *f, ...) {
    on = 0; self = -1;
    if (!sh->msg[0]) { va_list a; va_start(a, f); vsnprintf(sh->msg, sizeof sh->msg, f, a); va_end(a); }
    _exit(7);
}
static Sync *sync_(const void *p, bool make = true) {
    uintptr_t a = (uintptr_t) p; uint32_t i = (a * 0x9E3779B97F4A7C15ull) >> 51;
    for (;; i = (i + 1) & (NSYNC - 1)) {
        if (S[i].addr == a) return &S[i];
        if (!S[i].addr) {
            if (!make) return NULL;
            if (nused >= NSYNC - 8) die("harness: too many synchronization objects");
            used[nused++] = i; S[i].addr = a; return &S[i];
        }
    }
}
static Cell *cell(uintptr_t key, bool make) {
    uint32_t i = (((key >> 9) * 0x9E3779B97F4A7C15ull) >> 53 << 6) | ((key >> 3) & 63);   // neighbours stay together
    for (;; i = (i + 1) & (NSHADOW - 1)) {
        if (M[i].key == key) return &M[i];
        if (!M[i].key) {
            if (!make) return NULL;
            if (++ncells >= NSHADOW - NSHADOW / 4) die("harness: too much memory to watch");
            M[i].key = key; return &M[i];
        }
    }
}
static void join(Clock *a, const Clock *b) { for (int i = 0; i < MAXT; i++) if (b[i] > a[i]) a[i] = b[i]; }
static void acquire(Sync *s) { join(T[self].vc, s->vc); }
static void release(Sync *s) { join(s->vc, T[self].vc); T[self].vc[self]++; }
static void release_store(Sync *s) { for (int i = 0; i < MAXT; i++) s->vc[i] = T[self].vc[i]; T[self].vc[self]++; }

static bool enabled(int t) {
    Thread & h = T[t];
    if (!h.used || h.done) return false;
    Sync *s;
    switch (h.op) {
    case RUN: return true;
    case LOCK: s = sync_(h.obj); return !s->owner || (s->owner == t + 1 && h.peer);
    case RDLOCK: s = sync_(h.obj); return !s->owner;
    case WRLOCK: s = sync_(h.obj); return !s->owner && !s->readers;
    case COND: return h.signalled;
    case JOIN: return T[h.peer].done;
    case GUARD: case ONCE: s = sync_(h.obj); return s->state != 1;
    }
    return true;
}
// Decide who runs next.  YIELD: somebody else, if possible, without cost.
static void reschedule(bool yield = false) {
    sh->points++;
    int cand[MAXT], n = 0;
    bool mine = enabled(self);
    if (++streak > 3000) yield = true;          // spinning
    if (mine && !yield) cand[n++] = self;
    for (int i = 0; i < nthreads; i++) if (i != self && enabled(i)) cand[n++] = i;
    if (!n && mine) cand[n++] = self;
    if (!n) {
        char w[512]; int k = 0;
        static const char *const names[] = {"running", "a lock", "a read lock", "a write lock", "a condition", "the end of a thread", "an initialization", "an initialization"};
        for (int i = 0; i < nthreads; i++) if (!T[i].done) k += snprintf(w + k, sizeof w - k, " thread %d waits for %s;", i, names[T[i].op]);
        die("deadlock:%s", w);
    }
    int c = 0;
    if (n > 1) {
        uint32_t d = sh->ndec;
        if (d >= MAXDEC - 1) die("an execution does not end (%d decisions)", MAXDEC);
        if (d < sh->nprefix) { c = sh->prefix[d]; if (c >= n) die("harness: the execution is not deterministic"); }
        sh->dec[d].n = n; sh->dec[d].chosen = c; sh->dec[d].preempts = mine && !yield;
        sh->ndec = d + 1;
    }
    int next = cand[c];
    if (next == self) return;
    streak = 0; cur = next;
    int me = self;
    wake(next);
    sleep_(me);
}
static void wait_for(Op op, void *obj, int peer = 0, bool yield = false) {
    Thread & h = T[self];
    h.op = op; h.obj = obj; h.peer = peer;
    reschedule(yield);
    h.op = RUN;
}

static void race(uintptr_t a, int other, bool iw, bool ow, uintptr_t pc, const char *what) {
    if (sh->msg[0]) return;
    Thread & h = T[self];
    sh->races++;
    int k = 0;
    uintptr_t base = (uintptr_t) &__executable_start;
    if (pc >= base && pc < (uintptr_t) &etext) sh->where[k++] = pc - base;
    for (int i = h.depth > 8 ? 8 : h.depth; i-- > 0 && k < 8;) { uintptr_t p = h.stack[i]; if (p >= base && p < (uintptr_t) &etext) sh->where[k++] = p - base; }
    on = 0;
    die("data race: thread %d %s memory at which thread %d %s without synchronization", self, what ? what : iw ? "writes" : "reads", other, ow ? "writes" : "reads");
}
static void access1(uintptr_t key, uint8_t mask, bool w, uintptr_t pc, const char *what) {
    Cell *c = cell(key, true); Thread & h = T[self];
    for (int u = 0; u < nthreads; u++) {
        if (u == self) continue;
        if (c->w[u] > h.vc[u] && (c->wm[u] & mask)) race(key, u, w, true, pc, what);
        if (w && c->r[u] > h.vc[u] && (c->rm[u] & mask)) race(key, u, w, false, pc, what);
    }
    Clock now = h.vc[self];
    if (w) { if (c->w[self] == now) c->wm[self] |= mask; else { c->w[self] = now; c->wm[self] = mask; } }
    else { if (c->r[self] == now) c->rm[self] |= mask; else { c->r[self] = now; c->rm[self] = mask; } }
}
static void access_(const void *p, size_t n, bool w, uintptr_t pc, const char *what = NULL) {
    if (!on || self < 0 || !n || nthreads < 2) return;
    uintptr_t a = (uintptr_t) p;
    Thread & h = T[self];
    if (a >= h.lo && a < h.hi) return;
    sh->accesses++;
    uintptr_t e = a + n;
    while (a < e) {
        uintptr_t g = a & ~(uintptr_t) 7, stop = g + 8 < e ? g + 8 : e;
        uint8_t m = 0; for (uintptr_t b = a; b < stop; b++) m |= 1 << (b - g);
        access1(g, m, w, pc, what);
        a = stop;
    }
}
void touch(const void *p, unsigned long n, bool w) { access_(p, n, w, (uintptr_t) __builtin_return_address(0)); }
static void forget(void *p) {         // new memory
    if (!on || self < 0 || nthreads < 2) return;
    size_t n = malloc_usable_size(p);
    uintptr_t a = (uintptr_t) p & ~(uintptr_t) 7, e = (uintptr_t) p + n;
    for (; a < e; a += 8) { Cell *c = cell(a, false); if (c) for (int i = 0; i < MAXT; i++) c->w[i] = c->r[i] = 0; }
    for (uint32_t i = 0; i < nused; i++) {
        Sync & s = S[used[i]];
        if (s.addr >= (uintptr_t) p && s.addr < e) { uintptr_t k = s.addr; __builtin_memset(&s, 0, sizeof s); s.addr = k; }
    }
}
static void bounds(Thread & h, void *frame) { h.hi = (uintptr_t) frame + 4096; h.lo = (uintptr_t) frame - (8u << 20) + 65536; }

void begin(Shared *s) {
    sh = s;
    S = (Sync *) mmap(NULL, sizeof(Sync) * NSYNC, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    M = (Cell *) mmap(NULL, sizeof(Cell) * NSHADOW, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    real_create = (int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *)) dlsym(RTLD_NEXT, "pthread_create");
    nthreads = 1; self = 0; cur = 0; T[0].used = true; T[0].op = RUN; T[0].vc[0] = 1; T[0].real = pthread_self();
    T[0].hi = (uintptr_t) __builtin_frame_address(0) + (1 << 20); T[0].lo = T[0].hi - (8u << 20);
    on = 1;
}
void end() { on = 0; self = -1; }
// An operation of the harness' choosing (such as writing to a stream).
void point(const void *, bool) { if (active() && nthreads > 1) wait_for(RUN, NULL); }

static void *start(void *a) {
    int t = (int) (intptr_t) a;
    bounds(T[t], __builtin_frame_address(0));
    sleep_(t);
    self = t;
    T[t].op = RUN;
    T[t].ret = T[t].fn(T[t].arg);
    T[t].done = true;
    T[t].vc[t]++;
    sh->points++;
    // give the baton away for good
    reschedule();
    for (;;) pause();
}
} // namespace sched
using namespace sched;
#define PC ((uintptr_t) __builtin_return_address(0))

extern "C" {
// ---- threads
int pthread_create(pthread_t *out, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
    if (!active()) {
        int (*f)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *) = (int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *)) dlsym(RTLD_NEXT, "pthread_create");
        return f(out, attr, fn, arg);
    }
    if (nthreads >= MAXT) die("harness: too many threads");
    int t = nthreads;
    Thread & h = T[t];
    h.used = true; h.done = false; h.op = RUN; h.fn = fn; h.arg = arg; h.go = 0;
    join(h.vc, T[self].vc); h.vc[t]++; T[self].vc[self]++;
    sh->threads++;
    int r = real_create(&h.real, NULL, start, (void *) (intptr_t) t);
    if (r) die("harness: no thread (%d)", r);
    nthreads++;
    *out = h.real;
    return 0;
}
int pthread_join(pthread_t p, void **ret) {
    if (!active()) {
        int (*f)(pthread_t, void **) = (int (*)(pthread_t, void **)) dlsym(RTLD_NEXT, "pthread_join");
        return f(p, ret);
    }
    for (int i = 0; i < nthreads; i++) if (pthread_equal(T[i].real, p)) {
        wait_for(JOIN, NULL, i);
        join(T[self].vc, T[i].vc);
        if (ret) *ret = T[i].ret;
        return 0;
    }
    return ESRCH;
}
int pthread_detach(pthread_t) { return 0; }
int sched_yield(void) { if (active()) wait_for(RUN, NULL, 0, true); return 0; }

// ---- locks
static bool recursive(pthread_mutex_t *m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) {
    __builtin_memset(m, 0, sizeof *m);
    int k = 0; if (a) { pthread_mutexattr_gettype(a, &k); m->__data.__kind = k; }
    if (active()) { Sync *s = sync_(m, false); if (s) { s->owner = s->count = s->readers = s->state = 0; } }
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t *m) { return 0; }
// outside the scheduler there is one thread: what it holds, while somebody asks
static struct { pthread_mutex_t *m; int n; } held[64]; static const char *held_bad; static int tracking;
static int *held_(pthread_mutex_t *m) { for (auto & h : held) { if (!h.m) h.m = m; if (h.m == m) return &h.n; } return NULL; }
void mc_track_locks(int on) { tracking = on; if (on) { __builtin_memset(held, 0, sizeof held); held_bad = NULL; } }
const char *mc_locks_bad(void) { if (held_bad) return held_bad; for (auto & h : held) if (h.n > 0) return "a lock is still held"; return NULL; }
int pthread_mutex_lock(pthread_mutex_t *m) {
    if (!active()) { if (tracking) { int *h = held_(m); if (h && ++*h > 1 && !recursive(m)) held_bad = "the thread waits for a lock which it holds"; } return 0; }
    wait_for(LOCK, m, recursive(m));
    Sync *s = sync_(m); s->owner = self + 1; s->count++; acquire(s);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
    if (!active()) { if (tracking) { int *h = held_(m); if (h && *h > 0 && !recursive(m)) return EBUSY; if (h) ++*h; } return 0; }
    wait_for(RUN, m);
    Sync *s = sync_(m);
    if (s->owner && !(s->owner == self + 1 && recursive(m))) return EBUSY;
    s->owner = self + 1; s->count++; acquire(s);
    return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *) { return pthread_mutex_lock(m); }
int pthread_mutex_unlock(pthread_mutex_t *m) {
    if (!active()) { if (tracking) { int *h = held_(m); if (h && --*h < 0) { *h = 0; held_bad = "a lock which is not held is released"; } } return 0; }
    Sync *s = sync_(m);
    if (s->owner != self + 1) die("thread %d unlocks a mutex it does not hold", self);
    release(s);
    if (--s->count <= 0) { s->owner = 0; s->count = 0; }
    return 0;
}
int pthread_spin_init(pthread_spinlock_t *l, int) { *(int *) l = 0; return 0; }
int pthread_spin_destroy(pthread_spinlock_t *) { return 0; }
int pthread_spin_lock(pthread_spinlock_t *l) { if (!active()) return 0; wait_for(LOCK, (void *) l); Sync *s = sync_((void *) l); s->owner = self + 1; acquire(s); return 0; }
int pthread_spin_unlock(pthread_spinlock_t *l) { if (!active()) return 0; Sync *s = sync_((void *) l); release(s); s->owner = 0; return 0; }
int pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *) { __builtin_memset(l, 0, sizeof *l); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t *) { return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t *l) { if (!active()) return 0; wait_for(RDLOCK, l); Sync *s = sync_(l); s->readers++; acquire(s); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t *l) { if (!active()) return 0; wait_for(WRLOCK, l); Sync *s = sync_(l); s->owner = self + 1; acquire(s); join(T[self].vc, s->rvc); return 0; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { if (!active()) return 0; wait_for(RUN, l); Sync *s = sync_(l); if (s->owner) return EBUSY; s->readers++; acquire(s); return 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) { if (!active()) return 0; wait_for(RUN, l); Sync *s = sync_(l); if (s->owner || s->readers) return EBUSY; s->owner = self + 1; acquire(s); join(T[self].vc, s->rvc); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t *l) {
    if (!active()) return 0;
    Sync *s = sync_(l);
    if (s->owner == self + 1) { release(s); s->owner = 0; }
    else { join(s->rvc, T[self].vc); T[self].vc[self]++; if (s->readers) s->readers--; }
    return 0;
}
int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) { __builtin_memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t *) { return 0; }
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    if (!active()) return 0;
    pthread_mutex_unlock(m);
    T[self].signalled = false;
    wait_for(COND, c);
    T[self].obj = NULL;
    acquire(sync_(c));
    return pthread_mutex_lock(m);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *) {
    if (!active()) return ETIMEDOUT;            // may time out at any moment
    pthread_mutex_unlock(m); wait_for(RUN, NULL, 0, true); pthread_mutex_lock(m); return ETIMEDOUT;
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec *t) { return pthread_cond_timedwait(c, m, t); }
int pthread_cond_signal(pthread_cond_t *c) {
    if (!active()) return 0;
    release(sync_(c));
    for (int i = 0; i < nthreads; i++) if (T[i].op == COND && T[i].obj == c && !T[i].signalled) { T[i].signalled = true; break; }
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
    if (!active()) return 0;
    release(sync_(c));
    for (int i = 0; i < nthreads; i++) if (T[i].op == COND && T[i].obj == c) T[i].signalled = true;
    return 0;
}
int pthread_once(pthread_once_t *o, void (*fn)(void)) {
    if (!active()) { if (*(volatile int *) o != 2) { fn(); *(volatile int *) o = 2; } return 0; }
    wait_for(ONCE, o);
    Sync *s = sync_(o);
    if (*(volatile int *) o == 2) { acquire(s); return 0; }
    s->state = 1;
    try { fn(); } catch (...) { s->state = 0; throw; }
    *(volatile int *) o = 2; s->state = 2; release(s);
    return 0;
}
// ---- initialization of local statics: byte 0 of the guard is "done"
int __cxa_guard_acquire(uint64_t *g) {
    if (*(volatile char *) g) { if (active()) acquire(sync_(g)); return 0; }
    if (!active()) { ((volatile char *) g)[1] = 1; return 1; }
    wait_for(GUARD, g);
    Sync *s = sync_(g);
    if (*(volatile char *) g) { acquire(s); return 0; }
    s->state = 1;
    return 1;
}
void __cxa_guard_release(uint64_t *g) {
    *(volatile char *) g = 1;
    if (active()) { Sync *s = sync_(g); s->state = 2; release(s); }
}
void __cxa_guard_abort(uint64_t *g) { if (active()) { Sync *s = sync_(g); s->state = 0; release(s); } }

// ---- memory
void *malloc(size_t n) { void *p = __libc_malloc(n); if (p) forget(p); return p; }
void *calloc(size_t a, size_t b) { void *p = __libc_calloc(a, b); if (p) forget(p); return p; }
void free(void *p) {
    if (!p) return;
    if (on && self >= 0 && nthreads > 1) {
        size_t n = malloc_usable_size(p);
        access_(p, n, true, PC, "frees");
        if (n <= 65536) { volatile char *c = (char *) p; for (size_t i = 0; i < n; i++) c[i] = (char) 0xdb; }
    }
    __libc_free(p);
}
void *realloc(void *p, size_t n) {
    if (!on || self < 0 || nthreads < 2) return __libc_realloc(p, n);
    if (!p) return malloc(n);
    if (!n) { free(p); return NULL; }
    size_t o = malloc_usable_size(p);
    void *q = malloc(n); if (!q) return NULL;
    size_t k = o < n ? o : n; for (size_t i = 0; i < k; i++) ((volatile char *) q)[i] = ((char *) p)[i];
    free(p);
    return q;
}
void *memalign(size_t a, size_t n) { void *p = __libc_memalign(a, n); if (p) forget(p); return p; }
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **o, size_t a, size_t n) { *o = memalign(a, n); return *o ? 0 : ENOMEM; }

static inline void copy(void *d, const void *s, size_t n) { __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); }
void *memcpy(void *d, const void *s, size_t n) {
    if (on) { access_(s, n, false, PC); access_(d, n, true, PC); }
    void *r = d; copy(d, s, n); return r;
}
void *memmove(void *d, const void *s, size_t n) {
    if (on) { access_(s, n, false, PC); access_(d, n, true, PC); }
    if ((uintptr_t) d <= (uintptr_t) s || (uintptr_t) d >= (uintptr_t) s + n) copy(d, s, n);
    else { char *x = (char *) d + n; const char *y = (const char *) s + n; while (n--) { *--x = *--y; __asm__ volatile("" : : : "memory"); } }
    return d;
}
void *memset(void *d, int v, size_t n) {
    if (on) access_(d, n, true, PC);
    void *r = d; __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(v) : "memory"); return r;
}
// std::istream::read, which is in the library of the compiler
void *__real__ZNSi4readEPcl(void *, char *, long);
void *__wrap__ZNSi4readEPcl(void *is, char *buf, long n) {
    void *r = __real__ZNSi4readEPcl(is, buf, n);
    if (on && n > 0) access_(buf, n, true, PC);
    return r;
}

// ---- what the compiler inserts
void __tsan_init(void) {}
void __tsan_func_entry(void *pc) { if (on && self >= 0) { Thread & h = T[self]; if (h.depth < 8) h.stack[h.depth] = (uintptr_t) pc; else { for (int i = 0; i < 7; i++) h.stack[i] = h.stack[i + 1]; h.stack[7] = (uintptr_t) pc; } h.depth++; } }
void __tsan_func_exit(void) { if (on && self >= 0 && T[self].depth) T[self].depth--; }
#define RW(n) \
    void __tsan_read##n(void *p) { access_(p, n, false, PC); } \
    void __tsan_write##n(void *p) { access_(p, n, true, PC); } \
    void __tsan_unaligned_read##n(void *p) { access_(p, n, false, PC); } \
    void __tsan_unaligned_write##n(void *p) { access_(p, n, true, PC); } \
    void __tsan_volatile_read##n(void *p) { access_(p, n, false, PC); } \
    void __tsan_volatile_write##n(void *p) { access_(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { access_(p, n, false, PC); }
void __tsan_write_range(void *p, size_t n) { access_(p, n, true, PC); }
void __tsan_vptr_read(void *p) { access_(p, 8, false, PC); }
void __tsan_vptr_update(void *p, void *v) { if (*(void **) p != v) access_(p, 8, true, PC); }

enum { RELAXED, CONSUME, ACQUIRE, RELEASE, ACQ_REL, SEQ_CST };
static inline void before(const volatile void *, bool) { if (on && self >= 0 && nthreads > 1) wait_for(RUN, NULL); }
static inline void acq(const volatile void *p, int mo) { if (active() && (mo == CONSUME || mo == ACQUIRE || mo == ACQ_REL || mo == SEQ_CST)) acquire(sync_((const void *) p)); }
static inline void rel(const volatile void *p, int mo) { if (active() && (mo == RELEASE || mo == ACQ_REL || mo == SEQ_CST)) release(sync_((const void *) p)); }
static inline void sto(const volatile void *p, int mo) {
    if (!active()) return;
    Sync *s = sync_((const void *) p);
    if (mo == RELEASE || mo == ACQ_REL || mo == SEQ_CST) release_store(s); else for (int i = 0; i < MAXT; i++) s->vc[i] = 0;
}
#define ATOMIC(bits, ty) \
    ty __tsan_atomic##bits##_load(const volatile ty *p, int mo) { before(p, false); ty v = __atomic_load_n(p, __ATOMIC_SEQ_CST); acq(p, mo); return v; } \
    void __tsan_atomic##bits##_store(volatile ty *p, ty v, int mo) { before(p, true); sto(p, mo); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
    ty __tsan_atomic##bits##_exchange(volatile ty *p, ty v, int mo) { before(p, true); acq(p, mo); rel(p, mo); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
    ty __tsan_atomic##bits##_fetch_add(volatile ty *p, ty v, int mo) { before(p, true); acq(p, mo); rel(p, mo); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
    ty __tsan_atomic##bits##_fetch_sub(volatile ty *p, ty v, int mo) { before(p, true); acq(p, mo); rel(p, mo); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
    ty __tsan_atomic##bits##_fetch_and(volatile ty *p, ty v, int mo) { before(p, true); acq(p, mo); rel(p, mo); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
    ty __tsan_atomic##bits##_fetch_or(volatile ty *p, ty v, int mo) { before(p, true); acq(p, mo); rel(p, mo); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
    ty __tsan_atomic##bits##_fetch_xor(volatile ty *p, ty v, int mo) { before(p, true); acq(p, mo); rel(p, mo); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
    ty __tsan_atomic##bits##_fetch_nand(volatile ty *p, ty v, int mo) { before(p, true); acq(p, mo); rel(p, mo); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile ty *p, ty *e, ty v, int mo, int fmo) { \
        before(p, true); bool ok = __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
        acq(p, ok ? mo : fmo); if (ok) rel(p, mo); return ok; } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile ty *p, ty *e, ty v, int mo, int fmo) { return __tsan_atomic##bits##_compare_exchange_strong(p, e, v, mo, fmo); } \
    ty __tsan_atomic##bits##_compare_exchange_val(volatile ty *p, ty e, ty v, int mo, int fmo) { __tsan_atomic##bits##_compare_exchange_strong(p, &e, v, mo, fmo); return e; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
static char fence;
void __tsan_atomic_thread_fence(int mo) { before(&fence, true); acq(&fence, mo); rel(&fence, mo); }
void __tsan_atomic_signal_fence(int) {}
} // extern "C"
