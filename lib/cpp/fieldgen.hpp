// Generators and the integer model shared by the field checks.  The modulus comes from the command line of
// the compiler (QHEX), never from the generated code.
#pragma once
#include "pbt.hpp"
#include <gmp.h>
#include <gmpxx.h>

typedef mpz_class Z;

namespace fm {

struct Model {
    int n64, bits; Z q, half, mask, R, Rinv;
    Model(const char *hex) : q(hex, 16) {
        bits = (int)mpz_sizeinbase(q.get_mpz_t(), 2); n64 = (bits - 1) / 64 + 1;
        half = q >> 1; mask = (Z(1) << bits) - 1; R = Z(1) << (64 * n64);
        mpz_invert(Rinv.get_mpz_t(), R.get_mpz_t(), q.get_mpz_t());
    }
    Z mod(const Z &a) const { Z r; mpz_fdiv_r(r.get_mpz_t(), a.get_mpz_t(), q.get_mpz_t()); return r; }
    Z toMont(const Z &a) const { return mod(a * R); }
    Z fromMont(const Z &a) const { return mod(a * Rinv); }
    Z inv(const Z &a) const { Z r; mpz_invert(r.get_mpz_t(), a.get_mpz_t(), q.get_mpz_t()); return r; }
    Z powm(const Z &a, const Z &e) const { Z r; mpz_powm(r.get_mpz_t(), a.get_mpz_t(), e.get_mpz_t(), q.get_mpz_t()); return r; }
    Z sgn(const Z &a) const { return a > half ? Z(a - q) : a; }
    Z shl(const Z &a, const Z &n) const {           // n >= 0
        if (n >= bits) return 0;
        return mod((a << n.get_ui()) & mask);
    }
    Z shr(const Z &a, const Z &n) const { if (n >= bits) return 0; return a >> n.get_ui(); }
    Z shlOp(const Z &a, const Z &b) const { if (b < bits) return shl(a, b); Z nb = q - b; if (nb < bits) return shr(a, nb); return 0; }
    Z shrOp(const Z &a, const Z &b) const { if (b < bits) return shr(a, b); Z nb = q - b; if (nb < bits) return shl(a, nb); return 0; }
};

inline Z fromLimbs(const uint64_t *l, int n) { Z r; mpz_import(r.get_mpz_t(), n, -1, 8, -1, 0, l); return r; }
inline void toLimbs(uint64_t *l, int n, const Z &v) { memset(l, 0, 8 * n); size_t c = 0; if (mpz_sizeinbase(v.get_mpz_t(), 2) > (size_t)n * 64) abort(); mpz_export(l, &c, -1, 8, -1, 0, v.get_mpz_t()); }
inline std::string hex(const Z &v) { return (v < 0 ? "-0x" : "0x") + Z(abs(v)).get_str(16); }

// An integer in [0, q): small numbers, numbers next to every boundary the code treats specially, limb
// patterns, and uniform ones.  Draw 0 = the value 0.
inline Z genValue(pbt::Tape &t, const Model &m, const char **cls = nullptr) {
    const char *c; Z v;
    switch (t.weighted({3, 5, 6, 4, 4})) {
    case 0: c = "small"; v = (long)t.below(5); break;
    case 1: {   // around a boundary
        c = "boundary";
        Z b;
        switch (t.below(12)) {
        case 0: b = 0; break;
        case 1: b = Z(1) << 31; break;
        case 2: b = Z(1) << 32; break;
        case 3: b = Z(1) << 63; break;
        case 4: b = Z(1) << (64 * (1 + t.below(m.n64))); break;
        case 5: b = m.half; break;
        case 6: b = Z(1) << (m.bits - 1); break;
        case 7: b = (long)m.bits; break;
        case 8: b = m.mask; break;
        case 9: b = Z(1) << t.below(m.bits + 1); break;
        case 10: b = m.R; break;
        default: b = 64; break;
        }
        bool neg = t.coin();
        v = b + Z((long)t.range(0, 8) - 4);
        if (neg) v = m.q - v;
        v = m.mod(v);
        break; }
    case 2: {   // limb patterns
        c = "limbs";
        uint64_t l[64];
        for (int i = 0; i < m.n64; i++) switch (t.weighted({4, 4, 2, 1, 1, 1, 2})) {
            case 0: l[i] = 0; break;
            case 1: l[i] = ~0ull; break;
            case 2: l[i] = t.u64(); break;
            case 3: l[i] = 1ull << t.below(64); break;
            case 4: l[i] = 0x7fffffffffffffffull; break;
            case 5: l[i] = ~0ull - t.below(4); break;
            default: l[i] = 0; { Z x = m.q >> (64 * i); l[i] = (uint64_t)Z(x & Z("ffffffffffffffff", 16)).get_ui() + t.below(3) - 1; } break;
        }
        v = m.mod(fromLimbs(l, m.n64));
        break; }
    case 3: {   // random bit length
        c = "bitlen";
        int n = (int)t.below(m.bits + 1); v = 0;
        uint64_t l[64]; for (int i = 0; i < m.n64; i++) l[i] = i * 64 < n ? t.u64() : 0;
        v = fromLimbs(l, m.n64); mpz_fdiv_r_2exp(v.get_mpz_t(), v.get_mpz_t(), n);
        if (t.coin(1, 4)) v = m.q - v;
        v = m.mod(v);
        break; }
    default: {
        c = "uniform";
        uint64_t l[64]; for (int i = 0; i < m.n64; i++) l[i] = t.u64();
        v = m.mod(fromLimbs(l, m.n64));
        break; }
    }
    if (cls) *cls = c;
    return v;
}

// A second operand, often in an interesting relation to the first.
inline Z genValue2(pbt::Tape &t, const Model &m, const Z &a, const char **cls = nullptr) {
    const char *c = nullptr; Z v;
    switch (t.weighted({10, 1, 1, 1, 1, 1, 2})) {
    case 0: return genValue(t, m, cls);
    case 1: c = "equal"; v = a; break;
    case 2: c = "opposite"; v = m.mod(-a); break;
    case 3: c = "near"; v = m.mod(a + (long)t.range(0, 4) - 2); break;
    case 4: c = "near-opposite"; v = m.mod((long)t.range(0, 4) - 2 - a); break;
    case 6: {   // a product (plain, or of Montgomery forms) that is itself an interesting value
        c = "product";
        if (a == 0) { v = 0; break; }
        v = m.mod(genValue(t, m) * m.inv(a));
        uint64_t k = t.below(3); if (k == 1) v = m.mod(v * m.R); else if (k == 2) v = m.mod(v * m.Rinv);
        break; }
    default: c = "half-complement"; v = m.mod(m.half - a + (long)t.range(0, 2)); break;
    }
    if (cls) *cls = c;
    return v;
}

} // namespace fm
