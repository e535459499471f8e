// C07: raw (Montgomery) arithmetic with every aliasing of its operands.  C08: the raw field class: text, integers,
// bytes, inverse, division, power.  C11: the functions of the generated ARM64 code (run by the interpreter).
#include "fieldgen.hpp"
#include "fr.hpp"

static fm::Model M(QHEX);
typedef RawFr::Element El;
static RawFr &F() { return RawFr::field; }

// live blocks held through GMP: what a call allocates, it must release
static long gmpLive = 0;
static void *ga(size_t n) { gmpLive++; return malloc(n); }
static void *gr(void *p, size_t, size_t n) { return realloc(p, n); }
static void gf(void *p, size_t) { gmpLive--; free(p); }

static Z limbs(const El &e) { return fm::fromLimbs(e.v, Fr_N64); }
static El el(const Z &v) { El e; fm::toLimbs(e.v, Fr_N64, v); return e; }
static El junkEl(pbt::Tape &t) { El e; uint64_t x = t.below(1000); for (int i = 0; i < Fr_N64; i++) e.v[i] = x ? pbt::splitmix(x) : 0; return e; }

// A raw element: the drawn pattern is either its Montgomery limbs or its value.
static Z genRaw(pbt::Tape &t, const Z *other = nullptr) {
    Z v = other ? fm::genValue2(t, M, *other) : fm::genValue(t, M);
    uint64_t k = t.below(5);                        // as drawn, or such that a conversion gives it
    return k < 2 ? v : k < 4 ? M.toMont(v) : M.fromMont(v);
}

struct RawOp { const char *name; int arity; std::function<void(uint64_t *, uint64_t *, uint64_t *)> f; std::function<Z(const Z &, const Z &)> model; };
static Z mmul(const Z &a, const Z &b) { return M.mod(a * b * M.Rinv); }

static std::vector<RawOp> rawOps() {
    typedef uint64_t *P;
    return {
        {"rawAdd", 2, [](P r, P a, P b) { Fr_rawAdd(r, a, b); }, [](const Z &a, const Z &b) { return M.mod(a + b); }},
        {"rawSub", 2, [](P r, P a, P b) { Fr_rawSub(r, a, b); }, [](const Z &a, const Z &b) { return M.mod(a - b); }},
        {"rawMMul", 2, [](P r, P a, P b) { Fr_rawMMul(r, a, b); }, mmul},
        {"rawNeg", 1, [](P r, P a, P) { Fr_rawNeg(r, a); }, [](const Z &a, const Z &) { return M.mod(-a); }},
        {"rawMSquare", 1, [](P r, P a, P) { Fr_rawMSquare(r, a); }, [](const Z &a, const Z &) { return mmul(a, a); }},
        {"rawToMontgomery", 1, [](P r, P a, P) { Fr_rawToMontgomery(r, a); }, [](const Z &a, const Z &) { return M.toMont(a); }},
        {"rawFromMontgomery", 1, [](P r, P a, P) { Fr_rawFromMontgomery(r, a); }, [](const Z &a, const Z &) { return M.fromMont(a); }},
        {"rawCopy", 1, [](P r, P a, P) { Fr_rawCopy(r, a); }, [](const Z &a, const Z &) { return a; }}};
}
static std::vector<RawOp> classOps() {
    typedef uint64_t *P;
#define E(p) (*(El *)(p))
    return {
        {"class add", 2, [](P r, P a, P b) { F().add(E(r), E(a), E(b)); }, [](const Z &a, const Z &b) { return M.mod(a + b); }},
        {"class sub", 2, [](P r, P a, P b) { F().sub(E(r), E(a), E(b)); }, [](const Z &a, const Z &b) { return M.mod(a - b); }},
        {"class mul", 2, [](P r, P a, P b) { F().mul(E(r), E(a), E(b)); }, mmul},
        {"class neg", 1, [](P r, P a, P) { F().neg(E(r), E(a)); }, [](const Z &a, const Z &) { return M.mod(-a); }},
        {"class square", 1, [](P r, P a, P) { F().square(E(r), E(a)); }, [](const Z &a, const Z &) { return mmul(a, a); }},
        {"class toMontgomery", 1, [](P r, P a, P) { F().toMontgomery(E(r), E(a)); }, [](const Z &a, const Z &) { return M.toMont(a); }},
        {"class fromMontgomery", 1, [](P r, P a, P) { F().fromMontgomery(E(r), E(a)); }, [](const Z &a, const Z &) { return M.fromMont(a); }},
        {"class copy", 1, [](P r, P a, P) { F().copy(E(r), E(a)); }, [](const Z &a, const Z &) { return a; }},
        {"value add", 2, [](P r, P a, P b) { E(r) = F().add(E(a), E(b)); }, [](const Z &a, const Z &b) { return M.mod(a + b); }},
        {"value sub", 2, [](P r, P a, P b) { E(r) = F().sub(E(a), E(b)); }, [](const Z &a, const Z &b) { return M.mod(a - b); }},
        {"value mul", 2, [](P r, P a, P b) { E(r) = F().mul(E(a), E(b)); }, mmul},
        {"value neg", 1, [](P r, P a, P) { E(r) = F().neg(E(a)); }, [](const Z &a, const Z &) { return M.mod(-a); }},
        {"value square", 1, [](P r, P a, P) { E(r) = F().square(E(a)); }, [](const Z &a, const Z &) { return mmul(a, a); }}};
}

static void runRaw(pbt::Tape &t, const RawOp &op) {
    Z va = genRaw(t), vb = op.arity == 2 ? genRaw(t, &va) : Z(0);
    static const char *alias[] = {"distinct", "r=a", "r=b", "a=b", "r=a=b"};
    int al = (int)t.below(op.arity == 2 ? 5 : 2);
    if (al >= 3) vb = va;
    El a = el(va), b = el(vb), r = junkEl(t);
    El *pa = &a, *pb = al >= 3 ? &a : &b, *pr = al == 1 || al == 4 ? &a : al == 2 ? &b : &r;
    t.note("%s(%s%s%s) %s", op.name, fm::hex(va).c_str(), op.arity == 2 ? ", " : "", op.arity == 2 ? fm::hex(vb).c_str() : "", alias[al]);
    t.label("%s %s", op.name, alias[al]);
    if (va > 1 && (op.arity == 1 || vb > 1)) t.nontrivial();
    op.f(pr->v, pa->v, pb->v);
    Z want = op.model(va, vb), got = limbs(*pr);
    PBT_CHECK(got == want, "%s(%s, %s) [%s] = %s, expected %s (q=%s)", op.name, fm::hex(va).c_str(), fm::hex(vb).c_str(), alias[al], fm::hex(got).c_str(), fm::hex(want).c_str(), fm::hex(M.q).c_str());
    if (pr != &a) PBT_CHECK(limbs(a) == va, "%s(%s, %s) [%s] changed its first operand to %s", op.name, fm::hex(va).c_str(), fm::hex(vb).c_str(), alias[al], fm::hex(limbs(a)).c_str());
    if (pr != &b && pb == &b) PBT_CHECK(limbs(b) == vb, "%s(%s, %s) [%s] changed its second operand to %s", op.name, fm::hex(va).c_str(), fm::hex(vb).c_str(), alias[al], fm::hex(limbs(b)).c_str());
}

static uint64_t genWord(pbt::Tape &t) {
    switch (t.weighted({2, 2, 2, 2})) {
    case 0: return t.below(8);
    case 1: return ~0ull - t.below(4);
    case 2: return (1ull << t.below(64)) + t.below(3) - 1;
    default: return t.u64();
    }
}

static void mul1(pbt::Tape &t, bool cls) {
    Z va = genRaw(t); uint64_t w = genWord(t); El a = el(va), r = junkEl(t); bool al = t.coin(1, 3);
    if (w % 2 && t.coin(1, 4)) {                    // an interesting product
        Z wz; mpz_import(wz.get_mpz_t(), 1, 1, 8, 0, 0, &w); wz = M.mod(wz);
        if (wz != 0) { va = M.mod(fm::genValue(t, M) * M.R * M.inv(wz)); a = el(va); }
    }
    t.note("mul1(%s, 0x%lx)%s", fm::hex(va).c_str(), w, al ? " in place" : ""); t.label("mul1%s%s", cls ? " class" : "", al ? " in place" : "");
    if (va > 1 && w > 1) t.nontrivial();
    El &d = al ? a : r;
    if (cls) F().mul1(d, a, w); else Fr_rawMMul1(d.v, a.v, w);
    Z wz; mpz_import(wz.get_mpz_t(), 1, 1, 8, 0, 0, &w);
    PBT_CHECK(limbs(d) == mmul(va, wz), "mul1(%s, 0x%lx) = %s, expected %s", fm::hex(va).c_str(), w, fm::hex(limbs(d)).c_str(), fm::hex(mmul(va, wz)).c_str());
    if (!al) PBT_CHECK(limbs(a) == va, "mul1(%s, 0x%lx) changed its operand", fm::hex(va).c_str(), w);
}
static void swap(pbt::Tape &t, bool cls) {
    Z va = genRaw(t), vb = genRaw(t, &va); El a = el(va), b = el(vb); bool al = t.coin(1, 10);
    t.note("swap(%s, %s)", fm::hex(va).c_str(), fm::hex(vb).c_str()); t.label("swap%s%s", cls ? " class" : "", al ? " with itself" : "");
    if (va != vb) t.nontrivial();
    El &bb = al ? a : b; if (al) vb = va;
    if (cls) F().swap(a, bb); else Fr_rawSwap(a.v, bb.v);
    PBT_CHECK(limbs(a) == vb && limbs(bb) == va, "swap(%s, %s) left (%s, %s)", fm::hex(va).c_str(), fm::hex(vb).c_str(), fm::hex(limbs(a)).c_str(), fm::hex(limbs(bb)).c_str());
}
static void tests(pbt::Tape &t, bool cls) {
    Z va = genRaw(t), vb = genRaw(t, &va);
    if (t.coin(1, 3)) {                             // differ in exactly one bit of one word
        vb = va; mpz_combit(vb.get_mpz_t(), t.below(M.bits)); if (vb >= M.q) vb = va;
    }
    if (t.coin(1, 8)) va = 0;
    El a = el(va), b = el(vb);
    t.note("eq/isZero(%s, %s)", fm::hex(va).c_str(), fm::hex(vb).c_str()); t.label("eq %d zero %d", va == vb, va == 0); t.nontrivial();
    int e = cls ? F().eq(a, b) : Fr_rawIsEq(a.v, b.v), e2 = cls ? F().eq(a, a) : Fr_rawIsEq(a.v, a.v), z = cls ? F().isZero(a) : Fr_rawIsZero(a.v);
    PBT_CHECK((e != 0) == (va == vb), "eq(%s, %s) = %d", fm::hex(va).c_str(), fm::hex(vb).c_str(), e);
    PBT_CHECK(e2 != 0, "eq(%s, itself) = %d", fm::hex(va).c_str(), e2);
    PBT_CHECK((z != 0) == (va == 0), "isZero(%s) = %d", fm::hex(va).c_str(), z);
    PBT_CHECK(limbs(a) == va && limbs(b) == vb, "eq/isZero changed an operand");
}
static void shifts(pbt::Tape &t) {
    Z va = genRaw(t); El a = el(va), r = junkEl(t); bool left = t.coin();
    if (M.bits < 2) return;
    uint64_t n = 1 + t.below(M.bits - 1);
    if (t.coin(1, 3)) { n = 64 * t.below(M.n64) + t.below(3); if (n == 0 || (int)n >= M.bits) n = 1; }
    t.note("%s(%s, %lu)", left ? "rawShl" : "rawShr", fm::hex(va).c_str(), n); t.label("%s %s", left ? "rawShl" : "rawShr", n % 64 ? "bits" : "whole words");
    if (va > 1) t.nontrivial();
    if (left) Fr_rawShl(r.v, a.v, n); else Fr_rawShr(r.v, a.v, n);
    Z want = left ? M.shl(va, Z((long)n)) : M.shr(va, Z((long)n));
    PBT_CHECK(limbs(r) == want, "%s(%s, %lu) = %s, expected %s", left ? "rawShl" : "rawShr", fm::hex(va).c_str(), n, fm::hex(limbs(r)).c_str(), fm::hex(want).c_str());
    PBT_CHECK(limbs(a) == va, "%s changed its operand", left ? "rawShl" : "rawShr");
}
#ifndef BACKEND_ASM
// helpers the portable code builds on; all exported by the generated header
static void helpers(pbt::Tape &t) {
    Z va = genRaw(t), vb = genRaw(t, &va); El a = el(va), b = el(vb), r = junkEl(t);
    // the second word is what a short element contributes: at most 31 bits
    uint64_t w = t.coin() ? t.below(1ull << 31) : t.below(5); if (t.coin(1, 6)) w = 1ull << 31;
    if (t.coin(1, 3)) { va = Z((unsigned long)w) + Z((long)t.range(0, 4) - 2); va = M.mod(va); a = el(va); }
    Z wz((unsigned long)w);
    int which = (int)t.below(11);
    static const char *names[] = {"rawAddLS", "rawSubLS", "rawSubSL", "rawNegLS", "rawCmp", "rawAnd", "rawOr", "rawXor", "rawNot", "rawSubRegular", "rawCopyS2L"};
    t.label("%s", names[which]); t.note("%s(%s, %s, 0x%lx)", names[which], fm::hex(va).c_str(), fm::hex(vb).c_str(), w);
    if (va > 1 && (vb > 1 || w > 1)) t.nontrivial();
    Z want, got; bool cmp = false;
    // r may be an operand; the portable bitwise and plain-subtraction helpers and the others are elementwise or
    // built on routines that allow it
    El *pr = t.coin(1, 4) ? &a : &r;
    switch (which) {
    case 0: Fr_rawAddLS(pr->v, a.v, w); want = M.mod(va + wz); break;
    case 1: Fr_rawSubLS(pr->v, a.v, w); want = M.mod(va - wz); break;
    case 2: Fr_rawSubSL(pr->v, w, a.v); want = M.mod(wz - va); break;
    case 3: pr = &r; if (w == 0) { w = 1; wz = 1; } /* its callers negate a negative short */ Fr_rawNegLS(pr->v, a.v, w); want = M.mod(-va - wz); break;
    case 4: { int c = Fr_rawCmp(a.v, b.v); int k = va < vb ? -1 : va > vb ? 1 : 0; PBT_CHECK((c > 0) - (c < 0) == k, "rawCmp(%s, %s) = %d", fm::hex(va).c_str(), fm::hex(vb).c_str(), c); return; }
    case 5: Fr_rawAnd(pr->v, a.v, b.v); want = M.mod(Z(va & vb)); break;
    case 6: Fr_rawOr(pr->v, a.v, b.v); want = M.mod(Z(va | vb)); break;
    case 7: Fr_rawXor(pr->v, a.v, b.v); want = M.mod(Z(va ^ vb)); break;
    case 8: Fr_rawNot(pr->v, a.v); want = M.mod(Z(va ^ M.mask)); break;
    case 9: Fr_rawSubRegular(pr->v, a.v, b.v); want = va - vb; if (want < 0) want += M.R; break;
    default: { int64_t s = t.coin() ? -(int64_t)w : (int64_t)w; Fr_rawCopyS2L(pr->v, s); want = M.mod(Z((long)s)); break; }
    }
    got = limbs(*pr);
    PBT_CHECK(got == want, "%s(a=%s, b=%s, w=0x%lx)%s = %s, expected %s", names[which], fm::hex(va).c_str(), fm::hex(vb).c_str(), w, pr == &a ? " in place" : "", fm::hex(got).c_str(), fm::hex(want).c_str());
    if (pr != &a) PBT_CHECK(limbs(a) == va && limbs(b) == vb, "%s changed an operand", names[which]);
}
#endif
static void constants(pbt::Tape &t) {
    int i = (int)t.below(4); int32_t v = 0; Z want;
    El e;
    switch (i) { case 0: e = F().zero(); want = 0; break; case 1: e = F().one(); want = 1; break; case 2: e = F().negOne(); want = M.q - 1; break;
    default: v = (int32_t)genWord(t); e = F().set(v); want = M.mod(Z((long)v)); }
    t.note("constant %d (%d)", i, v); t.label("constant %d", i); t.nontrivial();
    PBT_CHECK(limbs(e) == M.toMont(want), "constant %d (%d) is %s, expected the Montgomery form of %s", i, v, fm::hex(limbs(e)).c_str(), fm::hex(want).c_str());
}
static void intOverloads(pbt::Tape &t) {
    Z va = fm::genValue(t, M); El a = el(M.toMont(va)), r; int32_t k = (int32_t)genWord(t); Z kz((long)k), want; int which = (int)t.below(6);
    t.note("int overload %d: %s, %d", which, fm::hex(va).c_str(), k); t.label("int overload %d", which); if (va > 1 && k != 0) t.nontrivial();
    switch (which) {
    case 0: r = F().add(k, a); want = kz + va; break;
    case 1: r = F().sub(k, a); want = kz - va; break;
    case 2: r = F().mul(k, a); want = kz * va; break;
    case 3: r = F().add(a, k); want = va + kz; break;
    case 4: r = F().sub(a, k); want = va - kz; break;
    default: r = F().mul(a, k); want = va * kz; break;
    }
    PBT_CHECK(limbs(r) == M.toMont(M.mod(want)), "int overload %d of (%s, %d): %s, expected the Montgomery form of %s", which, fm::hex(va).c_str(), k, fm::hex(limbs(r)).c_str(), fm::hex(M.mod(want)).c_str());
}

// ------------------------------------------------------------------------------------------------- C08
static Z genInteger(pbt::Tape &t, const char **cls) {
    Z v;
    switch (t.weighted({3, 4, 3, 3})) {
    case 0: *cls = "small"; v = (long)t.below(1000); break;
    case 1: *cls = "field"; v = fm::genValue(t, M); break;
    case 2: *cls = "near k*q"; v = M.q * Z((long)t.below(5)) + Z((long)t.range(0, 6) - 3); break;
    default: *cls = "huge"; { int n = 1 + (int)t.below(2 * M.n64 + 2); for (int i = 0; i < n; i++) { uint64_t w = t.u64(); Z x; mpz_import(x.get_mpz_t(), 1, 1, 8, 0, 0, &w); v = (v << 64) + x; } } break;
    }
    if (t.coin(1, 3)) v = -v;
    return v;
}
struct LeakCheck { long before = gmpLive; void done(const char *what) { PBT_CHECK(gmpLive == before, "%s kept %ld GMP block(s) allocated", what, gmpLive - before); } };

static void strings(pbt::Tape &t) {
    const char *c; Z v = genInteger(t, &c); int radix = t.coin() ? 10 : (int)t.range(2, 36);
    std::string s = v.get_str(radix); El r = junkEl(t);
    t.note("fromString(\"%s\", %d)", s.c_str(), radix); t.label("fromString %s radix %s", c, radix == 10 ? "10" : "other"); if (abs(v) > 1) t.nontrivial();
    LeakCheck l;
    if (radix == 10 && t.coin()) F().fromString(r, s); else F().fromString(r, s, radix);
    l.done("fromString");
    PBT_CHECK(limbs(r) == M.toMont(M.mod(v)), "fromString(%s, %d): limbs %s, expected %s", s.c_str(), radix, fm::hex(limbs(r)).c_str(), fm::hex(M.toMont(M.mod(v))).c_str());
    int rad2 = t.coin() ? 10 : (int)t.range(2, 36);
    std::string o = rad2 == 10 ? F().toString(r) : F().toString(r, rad2);
    PBT_CHECK(o == M.mod(v).get_str(rad2), "toString(%s, %d) = %s, expected %s", fm::hex(M.mod(v)).c_str(), rad2, o.c_str(), M.mod(v).get_str(rad2).c_str());
    PBT_CHECK(limbs(r) == M.toMont(M.mod(v)), "toString changed its operand");
}
static void integers(pbt::Tape &t) {
    Z v = fm::genValue(t, M); El r = junkEl(t), r2 = junkEl(t); Z back; uint64_t w = genWord(t); int32_t k = (int32_t)genWord(t);
    t.note("mpz %s, word 0x%lx, int %d", fm::hex(v).c_str(), w, k); t.label("integers"); if (v > 1) t.nontrivial();
    LeakCheck l;
    F().fromMpz(r, v.get_mpz_t()); l.done("fromMpz");
    PBT_CHECK(limbs(r) == M.toMont(v), "fromMpz(%s): limbs %s", fm::hex(v).c_str(), fm::hex(limbs(r)).c_str());
    F().toMpz(back.get_mpz_t(), r);
    PBT_CHECK(back == v, "toMpz(fromMpz(%s)) = %s", fm::hex(v).c_str(), fm::hex(back).c_str());
    Z wz; mpz_import(wz.get_mpz_t(), 1, 1, 8, 0, 0, &w); if (wz >= M.q) { w %= 1000; wz = (unsigned long)w; }
    LeakCheck l2;
    F().fromUI(r, w); F().set(r2, k); l2.done("fromUI/set");
    PBT_CHECK(limbs(r) == M.toMont(wz), "fromUI(0x%lx): limbs %s, expected %s", w, fm::hex(limbs(r)).c_str(), fm::hex(M.toMont(wz)).c_str());
    PBT_CHECK(limbs(r2) == M.toMont(M.mod(Z((long)k))), "set(%d): limbs %s", k, fm::hex(limbs(r2)).c_str());
}
static void bytes(pbt::Tape &t) {
    Z v = fm::genValue(t, M); El e = el(M.toMont(v)), r = junkEl(t);
    int N = Fr_N64 * 8, n = t.coin(1, 5) ? (int)t.below(N) : N + (int)(t.coin() ? 0 : t.below(t.coin(1, 20) ? 400 : 40));
    std::vector<uint8_t> buf(n + 64); uint64_t x = 1 + t.below(1000); for (auto &b : buf) b = (uint8_t)pbt::splitmix(x);
    std::vector<uint8_t> before = buf;
    t.note("toRprBE(%s, %d bytes)", fm::hex(v).c_str(), n); t.label("bytes: %s", n < N ? "too small" : n == N ? "exact" : "larger"); if (v > 0) t.nontrivial();
    LeakCheck l;
    int ret = F().toRprBE(e, buf.data() + 32, n); l.done("toRprBE");
    if (n < N) {
        PBT_CHECK(ret == -N, "toRprBE into %d bytes returned %d, expected %d", n, ret, -N);
        PBT_CHECK(buf == before, "toRprBE into a buffer that is too small (%d bytes) wrote to it", n);
        LeakCheck l2; El r0 = r;
        ret = F().fromRprBE(r, buf.data() + 32, n); l2.done("fromRprBE");
        PBT_CHECK(ret == -N, "fromRprBE from %d bytes returned %d, expected %d", n, ret, -N);
        PBT_CHECK(!memcmp(&r, &r0, sizeof r), "fromRprBE from a buffer that is too small changed the element");
        return;
    }
    PBT_CHECK(ret == N, "toRprBE(%s) into %d bytes returned %d, expected %d", fm::hex(v).c_str(), n, ret, N);
    PBT_CHECK(!memcmp(buf.data(), before.data(), 32) && !memcmp(buf.data() + 32 + n, before.data() + 32 + n, 32), "toRprBE(%s) into %d bytes wrote outside the buffer", fm::hex(v).c_str(), n);
    Z got; mpz_import(got.get_mpz_t(), N, 1, 1, 0, 0, buf.data() + 32);
    PBT_CHECK(got == v, "toRprBE(%s) into %d bytes: the %d bytes read as %s", fm::hex(v).c_str(), n, N, fm::hex(got).c_str());
    LeakCheck l3; ret = F().fromRprBE(r, buf.data() + 32, n); l3.done("fromRprBE");
    PBT_CHECK(ret == N, "fromRprBE from %d bytes returned %d, expected %d", n, ret, N);
    PBT_CHECK(limbs(r) == M.toMont(v), "fromRprBE(toRprBE(%s)) through %d bytes gives limbs %s, expected %s", fm::hex(v).c_str(), n, fm::hex(limbs(r)).c_str(), fm::hex(M.toMont(v)).c_str());
    PBT_CHECK(limbs(e) == M.toMont(v), "toRprBE changed its operand");
}
static void invDiv(pbt::Tape &t) {
    Z a = fm::genValue(t, M), b = fm::genValue2(t, M, a); if (b == 0) throw pbt::Discard();
    El ea = el(M.toMont(a)), eb = el(M.toMont(b)), r = junkEl(t);
    int al = (int)t.below(5); if (al >= 3) { ea = eb; a = b; }
    El *pa = al >= 3 ? &eb : &ea, *pr = al == 1 ? &ea : al == 2 || al == 4 ? &eb : &r;
    t.note("div(%s, %s) aliasing %d", fm::hex(a).c_str(), fm::hex(b).c_str(), al); t.label("div aliasing %d", al); if (a > 1 && b > 1) t.nontrivial();
    LeakCheck l;
    El i = junkEl(t); F().inv(i, eb);
    PBT_CHECK(limbs(i) == M.toMont(M.inv(b)), "inv(%s): limbs %s, expected those of %s", fm::hex(b).c_str(), fm::hex(limbs(i)).c_str(), fm::hex(M.inv(b)).c_str());
    El i2 = eb; F().inv(i2, i2); PBT_CHECK(limbs(i2) == limbs(i), "inv(%s) in place: limbs %s", fm::hex(b).c_str(), fm::hex(limbs(i2)).c_str());
    F().div(*pr, *pa, eb); l.done("inv/div");
    Z want = M.mod(a * M.inv(b));
    PBT_CHECK(limbs(*pr) == M.toMont(want), "div(%s, %s) [aliasing %d]: limbs %s, expected those of %s", fm::hex(a).c_str(), fm::hex(b).c_str(), al, fm::hex(limbs(*pr)).c_str(), fm::hex(want).c_str());
}
static void power(pbt::Tape &t) {
    Z a = fm::genValue(t, M); El e = el(M.toMont(a)), r = junkEl(t); bool al = t.coin(1, 3);
    int n = (int)t.below(t.coin(1, 40) ? 300 : t.coin(1, 3) ? 2 * Fr_N64 * 8 + 2 : 10);
    std::vector<uint8_t> s(n + 1, 0); int shape = (int)t.below(4); Z x;
    if (shape == 3) { Z v = fm::genValue(t, M); size_t c; if (mpz_sizeinbase(v.get_mpz_t(), 2) <= 8u * n && v != 0) mpz_export(s.data(), &c, -1, 1, 0, 0, v.get_mpz_t()); }
    else for (int i = 0; i < n; i++) s[i] = shape == 0 ? 0 : shape == 1 ? 0xff : (uint8_t)t.below(256);
    if (shape == 0 && n) s[t.below(n)] = (uint8_t)(1u << t.below(8));
    mpz_import(x.get_mpz_t(), n, -1, 1, 0, 0, s.data());
    std::vector<uint8_t> s0 = s;
    t.note("exp(%s, %s in %d bytes)%s", fm::hex(a).c_str(), fm::hex(x).c_str(), n, al ? " in place" : ""); t.label("exp shape %d%s", shape, al ? " in place" : ""); if (a > 1 && x > 1) t.nontrivial();
    El &d = al ? e : r;
    F().exp(d, e, s.data(), n);
    PBT_CHECK(limbs(d) == M.toMont(M.powm(a, x)), "exp(%s, %s in %d bytes)%s: limbs %s, expected those of %s", fm::hex(a).c_str(), fm::hex(x).c_str(), n, al ? " in place" : "", fm::hex(limbs(d)).c_str(), fm::hex(M.powm(a, x)).c_str());
    PBT_CHECK(s == s0, "exp changed the scalar");
}

int main(int argc, char **argv) {
    mp_set_memory_functions(ga, gr, gf);
    static std::vector<RawOp> R = rawOps(), C = classOps();
    for (const char *p : {"C07/", "C11/"}) {
        std::string P = p; bool c11 = P[2] == '1';
        for (auto &op : R) pbt::addProp(P + op.name, 3, [&op](pbt::Tape &t) { runRaw(t, op); }, 20);
        if (!c11) for (auto &op : C) pbt::addProp(P + op.name, 1, [&op](pbt::Tape &t) { runRaw(t, op); }, 20);
        pbt::addProp(P + "mul1", 3, [c11](pbt::Tape &t) { mul1(t, !c11 && t.coin(1, 3)); }, 20);
        pbt::addProp(P + "swap", 1, [c11](pbt::Tape &t) { swap(t, !c11 && t.coin(1, 3)); }, 20);
        pbt::addProp(P + "tests", 2, [c11](pbt::Tape &t) { tests(t, !c11 && t.coin(1, 3)); }, 20);
        pbt::addProp(P + "shifts", 3, shifts, 20);
#ifndef BACKEND_ASM
        pbt::addProp(P + "helpers", 6, helpers, 20);
#endif
        if (!c11) { pbt::addProp(P + "constants", 1, constants, 20); pbt::addProp(P + "ints", 2, intOverloads, 20); }
    }
    pbt::addProp("C08/strings", 2, strings, 20);
    pbt::addProp("C08/integers", 2, integers, 20);
    pbt::addProp("C08/bytes", 2, bytes, 20);
    pbt::addProp("C08/invdiv", 2, invDiv, 20);
    pbt::addProp("C08/exp", 1, power, 20);
    return pbt::mainDriver(argc, argv);
}
