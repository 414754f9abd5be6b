// new.hpp -- allocation failure as on a real system: huge requests fail.
// (AddressSanitizer's own operator new would end the process.)
#ifndef NEW_HPP
#define NEW_HPP
#include <cstdlib>
#include <new>
static void *mc_alloc(size_t n) {
    if (n > (256u << 20)) throw std::bad_alloc();
    void *p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void *operator new(size_t n) { return mc_alloc(n); }
void *operator new[](size_t n) { return mc_alloc(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
#endif
