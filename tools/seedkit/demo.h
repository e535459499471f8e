// Helpers of the demonstrations: the generated field Fr against GMP.
#pragma once
#include <gmpxx.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include "fr.hpp"
typedef mpz_class Z;
static Z modulus() { Z r; mpz_import(r.get_mpz_t(), Fr_N64, -1, 8, -1, 0, Fr_q.longVal); return r; }
static Z red(Z v) { Z q = modulus(), r; mpz_mod(r.get_mpz_t(), v.get_mpz_t(), q.get_mpz_t()); return r; }
static Z limbs(const uint64_t *p) { Z r; mpz_import(r.get_mpz_t(), Fr_N64, -1, 8, -1, 0, p); return r; }
static void toLimbs(uint64_t *p, Z v) { memset(p, 0, 8 * Fr_N64); mpz_export(p, nullptr, -1, 8, -1, 0, v.get_mpz_t()); }
static Z mont(Z v) { return red(v << (64 * Fr_N64)); }
static Z unmont(Z v) { Z q = modulus(), r = Z(1) << (64 * Fr_N64), i; mpz_invert(i.get_mpz_t(), r.get_mpz_t(), q.get_mpz_t()); return red(v * i); }
// an element in a given representation
static FrElement S(int v) { FrElement e; memset(&e, 0, sizeof e); e.type = Fr_SHORT; e.shortVal = v; return e; }
static FrElement L(Z v) { FrElement e; memset(&e, 0, sizeof e); e.type = Fr_LONG; toLimbs(e.longVal, red(v)); return e; }
static FrElement LM(Z v) { FrElement e; memset(&e, 0, sizeof e); e.type = Fr_LONGMONTGOMERY; toLimbs(e.longVal, mont(red(v))); return e; }
static FrElement SM(int v) { FrElement e; memset(&e, 0, sizeof e); e.type = Fr_SHORTMONTGOMERY; e.shortVal = v; toLimbs(e.longVal, mont(red(Z(v)))); return e; }
static Z val(const FrElement &e) {
    if (!(e.type & Fr_LONG)) return red(Z(e.shortVal));
    return e.type == Fr_LONGMONTGOMERY ? unmont(limbs(e.longVal)) : limbs(e.longVal);
}
static RawFr::Element R(Z v) { RawFr::Element e; toLimbs(e.v, mont(red(v))); return e; }
static Z val(const RawFr::Element &e) { return unmont(limbs(e.v)); }
static int bad = 0;
static void is(const char *what, Z got, Z want) { if (got != want) { printf("%s: got %s, expected %s\n", what, got.get_str().c_str(), want.get_str().c_str()); bad = 1; } }
static void ok(const char *what, bool b) { if (!b) { printf("%s: wrong\n", what); bad = 1; } }
