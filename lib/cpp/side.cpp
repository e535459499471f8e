// Compiled once per backend with -DS=Fa or -DS=Fg and -DSH="fa.hpp" / "fg.hpp".
#include "side.hpp"
#include SH
#include <cstring>
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define X(n) CAT(S, n)
typedef X(Element) TE; typedef CAT(Raw, S) RC; typedef RC::Element RE;
#define B(n) [](void *r, void *a, void *b) { X(_##n)((TE *)r, (TE *)a, (TE *)b); }
#define U(n) [](void *r, void *a) { X(_##n)((TE *)r, (TE *)a); }
#define P uint64_t *
#define E(p) (*(RE *)(p))
static RC &f() { return RC::field; }
static Side build() {
    Side s; memset((void *)&s, 0, sizeof s);
    s.name = SH; s.n64 = X(_N64); s.maxBits = RC::MaxBits;
    s.nbin = 0; s.nun = 0; s.nrbin = 0; s.nrun = 0;
#define AB(n) s.bin[s.nbin] = B(n); s.binName[s.nbin++] = #n;
#define AU(n) s.un[s.nun] = U(n); s.unName[s.nun++] = #n;
#define RB(n) s.rbin[s.nrbin] = [](P r, P a, P b) { X(_##n)(r, a, b); }; s.rbinName[s.nrbin++] = #n;
#define RU(n) s.run[s.nrun] = [](P r, P a) { X(_##n)(r, a); }; s.runName[s.nrun++] = #n;
    AB(add) AB(sub) AB(mul) AB(eq) AB(neq) AB(lt) AB(gt) AB(leq) AB(geq) AB(land) AB(lor) AB(band) AB(bor) AB(bxor) AB(shl) AB(shr) AB(pow) AB(idiv) AB(mod) AB(div)
    AU(neg) AU(square) AU(lnot) AU(bnot) AU(copy) AU(toNormal) AU(toLongNormal) AU(toMontgomery) AU(inv)
    s.isTrue = [](void *a) { return X(_isTrue)((TE *)a); }; s.toInt = [](void *a) { return X(_toInt)((TE *)a); };
    s.parse = [](void *r, const char *t) { X(_str2element)((TE *)r, t); }; s.print = [](void *a) { return X(_element2str)((TE *)a); };
    s.copyn = [](void *r, void *a, int n) { X(_copyn)((TE *)r, (TE *)a, n); };
    RB(rawAdd) RB(rawSub) RB(rawMMul)
    RU(rawNeg) RU(rawMSquare) RU(rawToMontgomery) RU(rawFromMontgomery) RU(rawCopy)
    s.mul1 = [](P r, P a, uint64_t b) { X(_rawMMul1)(r, a, b); }; s.swap = [](P a, P b) { X(_rawSwap)(a, b); };
    s.isEq = [](P a, P b) { return X(_rawIsEq)(a, b); }; s.isZero = [](P a) { return X(_rawIsZero)(a); };
    s.shl = [](P r, P a, uint64_t b) { X(_rawShl)(r, a, b); }; s.shr = [](P r, P a, uint64_t b) { X(_rawShr)(r, a, b); };
    s.cFromString = [](P r, const std::string &t, int radix) { f().fromString(E(r), t, radix); }; s.cToString = [](P a, int radix) { return f().toString(E(a), radix); };
    s.cExp = [](P r, P a, uint8_t *e, unsigned n) { f().exp(E(r), E(a), e, n); }; s.cInv = [](P r, P a) { f().inv(E(r), E(a)); }; s.cDiv = [](P r, P a, P b) { f().div(E(r), E(a), E(b)); };
    s.cToBE = [](P a, uint8_t *d, int n) { return f().toRprBE(E(a), d, n); }; s.cFromBE = [](P r, const uint8_t *d, int n) { return f().fromRprBE(E(r), d, n); };
    s.cSet = [](P r, int v) { f().set(E(r), v); };
    s.cConst = [](int i, P r) { RE e = i == 0 ? f().zero() : i == 1 ? f().one() : f().negOne(); memcpy(r, e.v, sizeof e.v); };
    s.constants[0] = X(_q).longVal; s.constantName[0] = "q"; s.constants[1] = X(_R3).longVal; s.constantName[1] = "R3";
    return s;
}
extern "C" const Side *CAT(side_, S)() { static Side s = build(); return &s; }
