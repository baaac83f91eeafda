#ifndef PSISIM_REAL_HPP
#define PSISIM_REAL_HPP
#include <dlfcn.h>
// The C library's own function behind one of ours.
template <class F> static inline F psisim_real(F *slot, const char *name) {
    if (!*slot) *slot = (F)dlsym(RTLD_NEXT, name);
    return *slot;
}
#define REAL(f) ([]() -> decltype(&f) { static decltype(&f) p; return psisim_real(&p, #f); }())
#endif
