// One backend of a generated field behind a table of functions, so that two can live in one program (C10).
#pragma once
#include <cstdint>
#include <string>
#include <gmp.h>
struct Side {
    const char *name; int n64, maxBits;
    void (*bin[32])(void *, void *, void *); const char *binName[32]; int nbin;
    void (*un[16])(void *, void *); const char *unName[16]; int nun;
    int (*isTrue)(void *); int (*toInt)(void *);
    void (*parse)(void *, const char *); char *(*print)(void *);
    void (*copyn)(void *, void *, int);
    // raw
    void (*rbin[8])(uint64_t *, uint64_t *, uint64_t *); const char *rbinName[8]; int nrbin;
    void (*run[8])(uint64_t *, uint64_t *); const char *runName[8]; int nrun;
    void (*mul1)(uint64_t *, uint64_t *, uint64_t); void (*swap)(uint64_t *, uint64_t *);
    int (*isEq)(uint64_t *, uint64_t *); int (*isZero)(uint64_t *);
    void (*shl)(uint64_t *, uint64_t *, uint64_t); void (*shr)(uint64_t *, uint64_t *, uint64_t);
    // class
    void (*cFromString)(uint64_t *, const std::string &, int); std::string (*cToString)(uint64_t *, int);
    void (*cExp)(uint64_t *, uint64_t *, uint8_t *, unsigned); void (*cInv)(uint64_t *, uint64_t *); void (*cDiv)(uint64_t *, uint64_t *, uint64_t *);
    int (*cToBE)(uint64_t *, uint8_t *, int); int (*cFromBE)(uint64_t *, const uint8_t *, int); void (*cSet)(uint64_t *, int); void (*cConst)(int, uint64_t *);
    uint64_t *constants[4]; const char *constantName[4];
};
extern "C" const Side *side_Fa(); extern "C" const Side *side_Fg();
