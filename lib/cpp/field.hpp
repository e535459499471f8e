// Tagged elements of the generated field "Fr": building every representation of a value, decoding results.
#pragma once
#include "fieldgen.hpp"
#include "fr.hpp"

#ifndef FM_M
#define FM_M
static fm::Model M(QHEX);
#endif

enum Rep { R_SHORT, R_SHORTM, R_LONG, R_LONGM };
static const char *repName[] = {"short", "shortMont", "long", "longMont"};

struct TV { FrElement e; Z v; Rep rep; const char *cls; };

inline bool fitsShort(const Z &v) { return v < (Z(1) << 31) || v >= M.q - (Z(1) << 31); }
inline int32_t shortOf(const Z &v) { return v < (Z(1) << 31) ? (int32_t)v.get_si() : (int32_t)Z(v - M.q).get_si(); }
inline uint32_t typeOf(Rep r) { return r == R_SHORT ? Fr_SHORT : r == R_SHORTM ? Fr_SHORTMONTGOMERY : r == R_LONG ? Fr_LONG : Fr_LONGMONTGOMERY; }

inline void setLimbs(FrElement &e, const Z &v) { uint64_t l[Fr_N64]; fm::toLimbs(l, Fr_N64, v); memcpy((char *)&e + 8, l, sizeof l); }
inline Z getLimbs(const FrElement &e) { uint64_t l[Fr_N64]; memcpy(l, (const char *)&e + 8, sizeof l); return fm::fromLimbs(l, Fr_N64); }

// value v in representation rep; the fields a representation does not use hold junk
inline FrElement encode(const Z &v, Rep rep, uint64_t junk) {
    FrElement e; uint64_t x = junk;
    uint64_t l[Fr_N64]; for (int i = 0; i < Fr_N64; i++) l[i] = junk ? pbt::splitmix(x) : 0;
    memcpy((char *)&e + 8, l, sizeof l);
    e.shortVal = (int32_t)(junk ? pbt::splitmix(x) : 0);
    e.type = typeOf(rep);
    if (rep == R_SHORT || rep == R_SHORTM) e.shortVal = shortOf(v);
    if (rep == R_LONG) setLimbs(e, v);
    if (rep == R_SHORTM || rep == R_LONGM) setLimbs(e, M.toMont(v));
    return e;
}
inline Rep genRep(pbt::Tape &t, const Z &v) {
    if (fitsShort(v)) return (Rep)t.below(4);
    return t.coin() ? R_LONGM : R_LONG;
}
// a 32-bit signed integer: small, next to a power of two or an end of the range, or uniform
inline int32_t genInt32(pbt::Tape &t, const char **cls) {
    int64_t v;
    switch (t.weighted({3, 3, 3, 3})) {
    case 0: *cls = "small"; v = (int64_t)t.below(6); break;
    case 1: *cls = "end"; v = (1ll << 31) - 1 - (int64_t)t.below(3); break;
    case 2: *cls = "pow2"; v = (1ll << t.below(32)) + t.range(0, 2) - 1; break;
    default: *cls = "uniform"; v = (int64_t)t.below(1ull << 31); break;
    }
    if (t.coin()) v = -v - (*cls[0] == 'e');
    if (v > 0x7fffffffll) v = 0x7fffffffll;
    if (v < -(1ll << 31)) v = -(1ll << 31);
    return (int32_t)v;
}
inline TV genElem(pbt::Tape &t, const Z *other = nullptr) {
    TV x; x.cls = "";
    switch (t.weighted({4, 2, 5, 4, 2})) {
    case 0: x.rep = R_SHORT; break;
    case 1: x.rep = R_SHORTM; break;
    case 2: x.rep = R_LONG; break;
    case 3: x.rep = R_LONGM; break;
    default: x.rep = R_LONGM; x.cls = "montgomery-limbs"; break;      // the drawn pattern is the Montgomery limbs
    }
    if (x.rep == R_SHORT || x.rep == R_SHORTM) {
        if (other && fitsShort(*other) && t.coin(1, 3)) { int64_t d = t.range(0, 4) - 2, v = shortOf(*other); v = t.coin() ? d - v : v + d; if (v > 0x7fffffffll || v < -(1ll << 31)) v = d; x.v = M.mod(Z((long)v)); x.cls = "related"; }
        else x.v = M.mod(Z((long)genInt32(t, &x.cls)));
    } else {
        bool rawFirst = x.cls[0] == 'm';
        x.v = other ? fm::genValue2(t, M, *other, &x.cls) : fm::genValue(t, M, &x.cls);
        if (rawFirst) x.v = M.fromMont(x.v);
    }
    x.e = encode(x.v, x.rep, t.coin(3, 4) ? t.below(0xffff) + 1 : 0);
    return x;
}
inline bool isLongTag(const FrElement &e) { return (e.type & Fr_LONG) != 0; }

// decodes a result; "" or what is wrong with its representation
inline std::string decode(const FrElement &e, Z &v, Rep *rep = nullptr) {
    char b[200];
    uint32_t ty = e.type;
    if (ty == Fr_SHORT || ty == Fr_SHORTMONTGOMERY) {
        v = M.mod(Z((long)e.shortVal));
        if (rep) *rep = ty == Fr_SHORT ? R_SHORT : R_SHORTM;
        if (ty == Fr_SHORTMONTGOMERY) {
            Z l = getLimbs(e);
            if (l >= M.q) return "the Montgomery limbs of a short/Montgomery result are not below the modulus: " + fm::hex(l);
            if (M.fromMont(l) != v) return "a short/Montgomery result holds two different values: short " + fm::hex(v) + ", Montgomery limbs for " + fm::hex(M.fromMont(l));
        }
        return "";
    }
    if (ty == Fr_LONG || ty == Fr_LONGMONTGOMERY) {
        Z l = getLimbs(e);
        if (rep) *rep = ty == Fr_LONG ? R_LONG : R_LONGM;
        v = ty == Fr_LONG ? l : M.fromMont(l);
        if (l >= M.q) return std::string("the limbs of a ") + (ty == Fr_LONG ? "long" : "long/Montgomery") + " result are not below the modulus: " + fm::hex(l);
        return "";
    }
    snprintf(b, sizeof b, "the result has an unknown type tag 0x%08x", ty);
    return b;
}
inline std::string show(const TV &x) { return std::string(repName[x.rep]) + " " + fm::hex(x.v); }

typedef void (*Fn1)(PFrElement, PFrElement);
typedef void (*Fn2)(PFrElement, PFrElement, PFrElement);
struct Op {
    const char *name; int arity; Fn1 f1; Fn2 f2;
    std::function<bool(const Z &, const Z &)> domain;
    std::function<Z(const Z &, const Z &)> model;
};
inline FrElement junkElem(pbt::Tape &t) {
    FrElement r; uint64_t x = t.below(256); unsigned char *p = (unsigned char *)&r;
    for (size_t i = 0; i < sizeof r; i++) p[i] = (unsigned char)(x ? pbt::splitmix(x) : 0);
    return r;
}
static const auto anyab = [](const Z &, const Z &) { return true; };
static const auto bnz = [](const Z &, const Z &b) { return b != 0; };
static const auto anz = [](const Z &a, const Z &) { return a != 0; };
static const Z ZERO(0), ONE(1);
#define B2Z(x) ((x) ? ONE : ZERO)

inline const std::vector<Op> &ringOps() {
    static std::vector<Op> o = {
        {"add", 2, nullptr, Fr_add, anyab, [](const Z &a, const Z &b) { return M.mod(a + b); }},
        {"sub", 2, nullptr, Fr_sub, anyab, [](const Z &a, const Z &b) { return M.mod(a - b); }},
        {"mul", 2, nullptr, Fr_mul, anyab, [](const Z &a, const Z &b) { return M.mod(a * b); }},
        {"neg", 1, Fr_neg, nullptr, anyab, [](const Z &a, const Z &) { return M.mod(-a); }},
        {"square", 1, Fr_square, nullptr, anyab, [](const Z &a, const Z &) { return M.mod(a * a); }}};
    return o;
}
inline const std::vector<Op> &divOps() {
    static std::vector<Op> o = {
        {"inv", 1, Fr_inv, nullptr, anz, [](const Z &a, const Z &) { return M.inv(a); }},
        {"div", 2, nullptr, Fr_div, bnz, [](const Z &a, const Z &b) { return M.mod(a * M.inv(b)); }},
        {"idiv", 2, nullptr, Fr_idiv, bnz, [](const Z &a, const Z &b) { return Z(a / b); }},
        {"mod", 2, nullptr, Fr_mod, bnz, [](const Z &a, const Z &b) { return Z(a % b); }},
        {"pow", 2, nullptr, Fr_pow, anyab, [](const Z &a, const Z &b) { return M.powm(a, b); }}};
    return o;
}
inline const std::vector<Op> &cmpOps() {
    static std::vector<Op> o = {
        {"eq", 2, nullptr, Fr_eq, anyab, [](const Z &a, const Z &b) { return B2Z(a == b); }},
        {"neq", 2, nullptr, Fr_neq, anyab, [](const Z &a, const Z &b) { return B2Z(a != b); }},
        {"lt", 2, nullptr, Fr_lt, anyab, [](const Z &a, const Z &b) { return B2Z(M.sgn(a) < M.sgn(b)); }},
        {"gt", 2, nullptr, Fr_gt, anyab, [](const Z &a, const Z &b) { return B2Z(M.sgn(a) > M.sgn(b)); }},
        {"leq", 2, nullptr, Fr_leq, anyab, [](const Z &a, const Z &b) { return B2Z(M.sgn(a) <= M.sgn(b)); }},
        {"geq", 2, nullptr, Fr_geq, anyab, [](const Z &a, const Z &b) { return B2Z(M.sgn(a) >= M.sgn(b)); }},
        {"land", 2, nullptr, Fr_land, anyab, [](const Z &a, const Z &b) { return B2Z(a != 0 && b != 0); }},
        {"lor", 2, nullptr, Fr_lor, anyab, [](const Z &a, const Z &b) { return B2Z(a != 0 || b != 0); }},
        {"lnot", 1, Fr_lnot, nullptr, anyab, [](const Z &a, const Z &) { return B2Z(a == 0); }}};
    return o;
}
inline const std::vector<Op> &bitOps() {
    static std::vector<Op> o = {
        {"band", 2, nullptr, Fr_band, anyab, [](const Z &a, const Z &b) { return M.mod(Z(a & b)); }},
        {"bor", 2, nullptr, Fr_bor, anyab, [](const Z &a, const Z &b) { return M.mod(Z(a | b)); }},
        {"bxor", 2, nullptr, Fr_bxor, anyab, [](const Z &a, const Z &b) { return M.mod(Z(a ^ b)); }},
        {"bnot", 1, Fr_bnot, nullptr, anyab, [](const Z &a, const Z &) { return M.mod(Z(a ^ M.mask)); }},
        {"shl", 2, nullptr, Fr_shl, anyab, [](const Z &a, const Z &b) { return M.shlOp(a, b); }},
        {"shr", 2, nullptr, Fr_shr, anyab, [](const Z &a, const Z &b) { return M.shrOp(a, b); }}};
    return o;
}
inline const std::vector<Op> &repOps() {
    static std::vector<Op> o = {
        {"copy", 1, Fr_copy, nullptr, anyab, [](const Z &a, const Z &) { return a; }},
        {"toNormal", 1, Fr_toNormal, nullptr, anyab, [](const Z &a, const Z &) { return a; }},
        {"toLongNormal", 1, Fr_toLongNormal, nullptr, anyab, [](const Z &a, const Z &) { return a; }},
        {"toMontgomery", 1, Fr_toMontgomery, nullptr, anyab, [](const Z &a, const Z &) { return a; }}};
    return o;
}
// a shift amount: within the width, "negative" (q - k), or outside both
inline Z genShift(pbt::Tape &t, const char **cls) {
    switch (t.weighted({6, 3, 2, 1})) {
    case 0: *cls = "amount<bits"; return Z((long)t.below(M.bits));
    case 1: *cls = "amount=-k"; return M.mod(-Z((long)t.below(M.bits) + 1));
    case 2: *cls = "amount near bits"; { Z v = Z((long)M.bits + t.range(0, 4) - 2); return M.mod(t.coin() ? Z(-v) : v); }
    default: *cls = "amount outside"; return fm::genValue(t, M);
    }
}
