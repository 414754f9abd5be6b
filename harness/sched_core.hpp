// sched_core.hpp -- what the explorer and the runtime share
#ifndef SCHED_CORE_HPP
#define SCHED_CORE_HPP
#include <stdint.h>
namespace sched {
enum { MAXDEC = 60000, MAXPRE = 4096 };
struct Shared {                         // between explorer and execution
    uint32_t ndec;                      // decisions taken
    uint32_t nprefix;
    uint32_t points, races, threads, accesses;
    int done;                           // the body returned
    uint64_t where[8];                  // stack of a race
    char msg[4096];
    uint8_t prefix[MAXPRE];
    struct { uint8_t n, chosen, preempts; } dec[MAXDEC];
};
// in tsanrt.cpp
void begin(Shared *s);                  // the calling thread becomes thread 0
void end();
void point(const void *obj, bool write);        // a marked operation
bool active();
void touch(const void *p, unsigned long n, bool write);    // an access the compiler does not show

} // namespace sched
#endif
