// Probes every scenario may use.  extern "C" functions are read with ctypes.
#ifndef PBMC_H
#define PBMC_H
#include <Python.h>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <new>

#define PBMC_C extern "C" __attribute__((weak, used, visibility("default")))

struct pbmc_state {
    long live, ctor, dtor, copies, bad, calls;
    long gil_bad;
    long nextid;
};
PBMC_C pbmc_state *pbmc_get();
PBMC_C pbmc_state *pbmc_get() { static pbmc_state s; return &s; }
PBMC_C long pbmc_live();   PBMC_C long pbmc_live()   { return pbmc_get()->live; }
PBMC_C long pbmc_ctor();   PBMC_C long pbmc_ctor()   { return pbmc_get()->ctor; }
PBMC_C long pbmc_dtor();   PBMC_C long pbmc_dtor()   { return pbmc_get()->dtor; }
PBMC_C long pbmc_copies(); PBMC_C long pbmc_copies() { return pbmc_get()->copies; }
PBMC_C long pbmc_bad();    PBMC_C long pbmc_bad()    { return pbmc_get()->bad; }
PBMC_C long pbmc_calls();  PBMC_C long pbmc_calls()  { return pbmc_get()->calls; }
PBMC_C void pbmc_reset();  PBMC_C void pbmc_reset()  { memset(pbmc_get(), 0, sizeof(pbmc_state)); }

// A member or base of this type makes the life of an object observable.  The
// memory of a heap object deriving from it is never reused, so that a second
// delete or a use after delete meets the dead marker instead of a new object.
struct Track {
    unsigned magic;
    Track() : magic(0x600DF00Du) { pbmc_get()->live++; pbmc_get()->ctor++; }
    Track(Track const &o) : magic(0x600DF00Du) {
        o.use(); pbmc_get()->live++; pbmc_get()->ctor++; pbmc_get()->copies++;
    }
    Track &operator=(Track const &o) { use(); o.use(); return *this; }
    ~Track() {
        if (magic != 0x600DF00Du) { pbmc_get()->bad++; return; }
        magic = 0xDEADDEADu; pbmc_get()->live--; pbmc_get()->dtor++;
    }
    void use() const { if (magic != 0x600DF00Du) pbmc_get()->bad++; }
    static void *operator new(size_t n) { return malloc(n); }
    static void *operator new(size_t, void *p) { return p; }
    static void operator delete(void *) {}
    static void operator delete(void *, void *) {}
};
#endif
