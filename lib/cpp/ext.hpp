// Exact models of what is built on top of the raw field class: F[x]/(x^2 - nr), short Weierstrass curves over either,
// and the adapters between the models and the library's types.
#pragma once
#include "fieldgen.hpp"
#ifdef ALT_BN128                                   // the base field is the Fq of the alt_bn128 engine
#include "alt_bn128.hpp"
typedef RawFq BaseF;
#define BASE_N64 Fq_N64
#else
#include "fr.hpp"
#include "f2field.hpp"
#include "curve.hpp"
typedef RawFr BaseF;
#define BASE_N64 Fr_N64
#endif
#include <array>

#ifndef FM_M
#define FM_M
static fm::Model M(QHEX);
#endif

// an element of the model field: c[1] is 0 in a prime field
typedef std::array<Z, 2> ME;
struct MField {
    int deg; Z nr;
    MField(int d = 1, Z n = 0) : deg(d), nr(n) {}
    ME zero() const { return {Z(0), Z(0)}; }
    ME one() const { return {Z(1), Z(0)}; }
    ME fromInt(long v) const { return {M.mod(Z(v)), Z(0)}; }
    bool isZero(const ME &a) const { return a[0] == 0 && a[1] == 0; }
    ME add(const ME &a, const ME &b) const { return {M.mod(a[0] + b[0]), M.mod(a[1] + b[1])}; }
    ME sub(const ME &a, const ME &b) const { return {M.mod(a[0] - b[0]), M.mod(a[1] - b[1])}; }
    ME neg(const ME &a) const { return sub(zero(), a); }
    ME mul(const ME &a, const ME &b) const {
        if (deg == 1) return {M.mod(a[0] * b[0]), Z(0)};
        return {M.mod(a[0] * b[0] + nr * M.mod(a[1] * b[1])), M.mod(a[0] * b[1] + a[1] * b[0])};
    }
    ME sq(const ME &a) const { return mul(a, a); }
    Z norm(const ME &a) const { return deg == 1 ? a[0] : M.mod(a[0] * a[0] - nr * M.mod(a[1] * a[1])); }
    bool invertible(const ME &a) const { return norm(a) != 0; }
    ME inv(const ME &a) const {
        Z d = M.inv(norm(a));
        if (deg == 1) return {d, Z(0)};
        return {M.mod(a[0] * d), M.mod(-(a[1] * d))};
    }
    ME div(const ME &a, const ME &b) const { return mul(a, inv(b)); }
};
inline std::string showE(const MField &f, const ME &a) { return f.deg == 1 ? fm::hex(a[0]) : "(" + fm::hex(a[0]) + "," + fm::hex(a[1]) + ")"; }
inline std::string textE(const MField &f, const ME &a) { return f.deg == 1 ? a[0].get_str() : "(" + a[0].get_str() + "," + a[1].get_str() + ")"; }

typedef BaseF::Element E1;
typedef F2Field<BaseF> Ext2;
typedef Ext2::Element E2;
inline void put(E1 &e, const Z &v) { fm::toLimbs(e.v, BASE_N64, M.toMont(v)); }
inline void put(E1 &e, const ME &v) { put(e, v[0]); }
inline void put(E2 &e, const ME &v) { put(e.a, v[0]); put(e.b, v[1]); }
inline bool get1(const E1 &e, Z &v) { Z l = fm::fromLimbs(e.v, BASE_N64); v = M.fromMont(l); return l < M.q; }
inline ME get(const E1 &e) { ME r; if (!get1(e, r[0])) pbt::fail("a result's limbs are not below the modulus: %s", fm::hex(fm::fromLimbs(e.v, BASE_N64)).c_str()); r[1] = 0; return r; }
inline ME get(const E2 &e) { ME r; if (!get1(e.a, r[0]) || !get1(e.b, r[1])) pbt::fail("a result's limbs are not below the modulus"); return r; }
inline void junk(void *p, size_t n, uint64_t seed) { uint64_t x = seed; for (size_t i = 0; i < n; i++) ((unsigned char *)p)[i] = seed ? (unsigned char)pbt::splitmix(x) : 0; }

inline ME genME(pbt::Tape &t, const MField &f) {
    ME r = f.zero();
    if (f.deg == 1) { r[0] = fm::genValue(t, M); return r; }
    switch (t.weighted({6, 2, 2})) {
    case 0: r[0] = fm::genValue(t, M); r[1] = fm::genValue2(t, M, r[0]); break;
    case 1: r[0] = fm::genValue(t, M); break;                  // in the base field
    default: r[1] = fm::genValue(t, M); break;                 // purely "imaginary"
    }
    return r;
}
inline ME genME2(pbt::Tape &t, const MField &f, const ME &o) {
    switch (t.weighted({10, 1, 1, 1, 1, 1})) {
    case 0: return genME(t, f);
    case 1: return o;
    case 2: return f.neg(o);
    case 3: return f.deg == 1 ? o : ME{o[0], M.mod(-o[1])};    // conjugate
    case 4: return f.deg == 1 ? o : ME{o[1], o[0]};
    default: return f.add(o, f.fromInt((long)t.range(0, 4) - 2));
    }
}
// 0, 1, -1 (both given as residues), small, or any
inline Z genNr(pbt::Tape &t) {
    switch (t.weighted({4, 1, 1, 3, 3})) {
    case 0: return M.q - 1;
    case 1: return 1;
    case 2: return 0;
    case 3: return M.mod(Z((long)t.range(0, 40) - 20));
    default: return fm::genValue(t, M);
    }
}

// ---- curves -----------------------------------------------------------------------------------------------------
struct MP { bool inf = true; ME x, y; };          // an affine point or the identity
struct MCurve {
    MField f; ME a, b;
    bool on(const MP &p) const { return p.inf || f.sq(p.y) == f.add(f.add(f.mul(f.sq(p.x), p.x), f.mul(a, p.x)), b); }
    MP neg(const MP &p) const { MP r = p; if (!p.inf) r.y = f.neg(p.y); return r; }
    bool eq(const MP &p, const MP &q) const { return p.inf == q.inf && (p.inf || (p.x == q.x && p.y == q.y)); }
    MP add(const MP &p, const MP &q) const {
        if (p.inf) return q;
        if (q.inf) return p;
        ME l; MP r;
        if (p.x == q.x) {
            if (p.y != q.y || f.isZero(p.y)) return r;
            ME x2 = f.sq(p.x);
            l = f.div(f.add(f.add(f.add(x2, x2), x2), a), f.add(p.y, p.y));
        } else l = f.div(f.sub(q.y, p.y), f.sub(q.x, p.x));
        r.inf = false;
        r.x = f.sub(f.sub(f.sq(l), p.x), q.x);
        r.y = f.sub(f.mul(l, f.sub(p.x, r.x)), p.y);
        return r;
    }
    MP sub(const MP &p, const MP &q) const { return add(p, neg(q)); }
    MP mul(const MP &p, Z k) const {
        MP b = k < 0 ? neg(p) : p, r; k = abs(k);
        for (long i = (long)mpz_sizeinbase(k.get_mpz_t(), 2) - 1; i >= 0; i--) { r = add(r, r); if (mpz_tstbit(k.get_mpz_t(), i)) r = add(r, b); }
        return r;
    }
    bool singular() const { ME d = f.mul(f.fromInt(4), f.mul(f.sq(a), a)), e = f.mul(f.fromInt(27), f.sq(b)); return f.isZero(f.add(d, e)); }
};
inline std::string showP(const MCurve &c, const MP &p) { return p.inf ? "O" : "(" + showE(c.f, p.x) + ", " + showE(c.f, p.y) + ")"; }

// A curve with a known point g (and, for a general coefficient a, a second independent one h).
struct CurveCase { MCurve c; MP g, h; bool two = false; const char *cls; };
inline CurveCase genCurve(pbt::Tape &t, const MField &f, bool rich = true) {
    CurveCase k; k.c.f = f;
    auto invertible = [&](const ME &v) { return f.invertible(v); };
    size_t kind = t.weighted({4, 2, 2, 4, 2});
    k.g.inf = false;
    k.g.x = t.coin(1, 8) ? f.zero() : genME(t, f);
    k.g.y = rich && t.coin(1, 6) ? f.zero() : genME(t, f);
    switch (kind) {
    case 0: k.cls = "a=0"; k.c.a = f.zero(); break;
    case 1: k.cls = "a=1"; k.c.a = f.one(); break;
    case 2: k.cls = "a=-1"; k.c.a = f.neg(f.one()); break;
    case 3: {
        k.cls = "any a, two points";
        k.h.inf = false; k.h.x = genME(t, f); k.h.y = genME(t, f);
        ME d = f.sub(k.g.x, k.h.x);
        if (!invertible(d)) throw pbt::Discard();
        auto rhs = [&](const MP &p) { return f.sub(f.sq(p.y), f.mul(f.sq(p.x), p.x)); };
        k.c.a = f.div(f.sub(rhs(k.g), rhs(k.h)), d); k.two = true; break; }
    default: k.cls = "small a"; k.c.a = f.fromInt((long)t.range(0, 8) - 4); break;
    }
    k.c.b = f.sub(f.sub(f.sq(k.g.y), f.mul(f.sq(k.g.x), k.g.x)), f.mul(k.c.a, k.g.x));
    if (f.isZero(k.c.b) || k.c.singular()) throw pbt::Discard();
    return k;
}

template <class BF> struct Lib {
    typedef typename BF::Element El; typedef Curve<BF> C; typedef typename C::Point P; typedef typename C::PointAffine A;
};
template <class A> void putA(A &r, const MP &p, const MField &f) { put(r.x, p.inf ? f.zero() : p.x); put(r.y, p.inf ? f.zero() : p.y); }
// the point scaled by l (invertible); the identity as the library's own operations leave it
template <class P> void putP(P &r, const MP &p, const MField &f, const ME &l, bool minus = false) {
    ME l2 = f.sq(l), l3 = f.mul(l2, l);
    if (p.inf && minus && l == f.one()) { put(r.x, f.zero()); put(r.y, f.zero()); put(r.zz, f.zero()); put(r.zzz, f.zero()); return; }   // the identity as a sum of nothing leaves it
    if (p.inf) { put(r.x, l2); put(r.y, minus ? f.neg(l3) : l3); put(r.zz, f.zero()); put(r.zzz, f.zero()); return; }
    put(r.x, f.mul(p.x, l2)); put(r.y, f.mul(p.y, l3)); put(r.zz, l2); put(r.zzz, l3);
}
template <class A> MP getA(const A &a, const MField &f) { MP r; r.x = get(a.x); r.y = get(a.y); r.inf = f.isZero(r.x) && f.isZero(r.y); return r; }
template <class P> MP getP(const P &p, const MField &f) {
    ME x = get(p.x), y = get(p.y), zz = get(p.zz), zzz = get(p.zzz); MP r;
    if (f.isZero(zz)) { if (!f.isZero(zzz)) pbt::fail("a result has zz = 0 but zzz = %s", showE(f, zzz).c_str()); return r; }
    if (f.mul(f.sq(zz), zz) != f.sq(zzz)) pbt::fail("a result is no projective point: zz^3 is not zzz^2");
    r.inf = false; r.x = f.div(x, zz); r.y = f.div(y, zzz);
    return r;
}
// A little-endian scalar of n bytes: zero, runs of ones, single bits, bit patterns, near a given number, uniform.
inline std::vector<uint8_t> genScalar(pbt::Tape &t, size_t n, const Z *order = nullptr, const char **cls = nullptr) {
    std::vector<uint8_t> s(n, 0); const char *c = "";
    auto setZ = [&](Z v) { Z mod = Z(1) << (8 * n); mpz_fdiv_r(v.get_mpz_t(), v.get_mpz_t(), mod.get_mpz_t()); for (size_t i = 0; i < n; i++) { s[i] = (uint8_t)Z(v & 255).get_ui(); v >>= 8; } };
    size_t bits = 8 * n;
    switch (t.weighted({2, 4, 3, 3, 3, 3, 6, (unsigned)(order ? 4 : 0)})) {
    case 0: c = "small"; s[0] = (uint8_t)t.below(20); break;
    case 1: { c = "run of ones"; size_t from = t.below(bits), len = 1 + t.below(bits - from); if (t.coin(1, 3)) from = bits - len; setZ(((Z(1) << len) - 1) << from); break; }
    case 2: c = "single bits"; setZ((Z(1) << t.below(bits)) + (t.coin() ? Z(1) << t.below(bits) : Z(0))); break;
    case 3: { c = "pattern"; static const uint8_t pat[] = {0xff, 0xaa, 0x55, 0x80, 0x7f, 0xfe, 0x01, 0xcc, 0x77, 0x88, 0xb6, 0x6d}; uint8_t a = pat[t.below(12)], b = pat[t.below(12)]; for (size_t i = 0; i < n; i++) s[i] = i & 1 ? a : b; break; }
    case 4: c = "minus small"; setZ(-Z((long)t.below(20)) - 1); break;
    case 5: c = "ones with holes"; for (size_t i = 0; i < n; i++) s[i] = 0xff; for (uint64_t i = 1 + t.below(3); i--;) { size_t b = t.below(bits); s[b / 8] ^= 1 << (b % 8); } break;
    case 6: c = "uniform"; for (size_t i = 0; i < n; i++) s[i] = (uint8_t)t.below(256); break;
    default: c = "near a multiple of the order"; setZ(*order * (long)t.below(40) + (long)t.range(0, 6) - 3); break;
    }
    if (cls) *cls = c;
    return s;
}
inline Z scalarZ(const uint8_t *s, size_t n) { Z r; mpz_import(r.get_mpz_t(), n, -1, 1, -1, 0, s); return r; }
inline std::string showS(const std::vector<uint8_t> &s) { return fm::hex(scalarZ(s.data(), s.size())) + " (" + std::to_string(s.size()) + " bytes)"; }

// A block of exactly n bytes with unmapped memory right before or right after it.
class Guarded {
    uint8_t *map; size_t total;
public:
    uint8_t *p; size_t n;
    Guarded(size_t n_, bool atEnd) : n(n_) {
        size_t pg = 4096, body = (n + pg - 1) / pg * pg; if (!body) body = pg;
        total = body + 2 * pg;
        map = (uint8_t *)mmap(nullptr, total, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (map == MAP_FAILED || mprotect(map + pg, body, PROT_READ | PROT_WRITE)) { perror("mmap"); _exit(3); }
        p = atEnd ? map + pg + body - n : map + pg;
    }
    void protect() { size_t pg = 4096; mprotect(map + pg, total - 2 * pg, PROT_READ); }
    ~Guarded() { munmap(map, total); }
    Guarded(const Guarded &) = delete; Guarded &operator=(const Guarded &) = delete;
};
