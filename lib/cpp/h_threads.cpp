// C24: operations on shared, unchanging operands from several threads at once give what they give alone.
#include "field.hpp"
#include "ext.hpp"
#include "naf.hpp"
#include "splitparstr.hpp"
#include "misc.hpp"
#include "multiexp.hpp"
#ifdef TOWER
#include "f6field.hpp"
#include "f12field.hpp"
#endif
#include "zkey_utils.hpp"
#include "wtns_utils.hpp"
#include <thread>
#include <atomic>
#include <sys/mman.h>
#include <unistd.h>

extern "C" int get_nprocs(void) noexcept { return 2; }
typedef Curve<BaseF> C1; typedef Curve<Ext2> C2;
#ifdef TOWER
typedef F6Field<Ext2> L6; typedef F12Field<L6> L12;
#endif
static const size_t K = 12, SC = 8;
// everything the threads share; nothing in it changes while they run
struct World {
    std::vector<Z> tv; FrElement te[K], small[K]; std::string text[K], tuple[K];
    E1 re[K]; E2 e2[K]; uint8_t be[K][Fr_N64 * 8], scalar[K][SC];
    std::unique_ptr<Ext2> F2; std::unique_ptr<C1> c1; std::unique_ptr<C2> c2;
    std::vector<uint8_t> file[K]; std::string path[K]; std::string nrText, ca, cb, gx, gy; uint64_t cols[4];
    C1::Point p1[K]; C1::PointAffine a1[K]; C2::Point p2[K]; C2::PointAffine a2[K];
#ifdef TOWER
    L6 *f6; L12 *f12; L12::Element e12[K]; L6::Element e6[K]; std::string text12[K];
#endif
};
static World W;
static uint64_t mix(uint64_t h, const void *p, size_t n) { const unsigned char *c = (const unsigned char *)p; for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 1099511628211ull; return h; }
static uint64_t dig(const FrElement &e) { uint64_t h = mix(7, &e.type, sizeof e.type); if (!(e.type & Fr_LONG)) h = mix(h, &e.shortVal, sizeof e.shortVal); if (e.type & (Fr_LONG | Fr_MONTGOMERY)) h = mix(h, (const char *)&e + 8, Fr_N64 * 8); return h; }
static uint64_t dig(const E1 &e) { return mix(9, e.v, sizeof e.v); }
static uint64_t dig(const E2 &e) { return dig(e.a) * 31 + dig(e.b); }
template <class P> static uint64_t digP(const P &p) { return ((dig(p.x) * 31 + dig(p.y)) * 31 + dig(p.zz)) * 31 + dig(p.zzz); }
static uint64_t dig(const C1::Point &p) { return digP(p); }
static uint64_t dig(const C2::Point &p) { return digP(p); }
static uint64_t dig(const C1::PointAffine &p) { return dig(p.x) * 31 + dig(p.y); }
static uint64_t dig(const C2::PointAffine &p) { return dig(p.x) * 31 + dig(p.y); }
static uint64_t dig(const std::string &s) { return mix(11, s.data(), s.size()); }

struct TOp { const char *name; unsigned cost; uint64_t (*f)(size_t i, size_t j); const Op *fr; };
static std::vector<TOp> ops;
template <void (*FN)(PFrElement, PFrElement, PFrElement)> static uint64_t t2(size_t i, size_t j) { FrElement r; memset((void *)&r, 0x5a, sizeof r); FN(&r, &W.te[i], &W.te[j]); return dig(r); }
template <void (*FN)(PFrElement, PFrElement)> static uint64_t t1(size_t i, size_t) { FrElement r; memset((void *)&r, 0x5a, sizeof r); FN(&r, &W.te[i]); return dig(r); }
#define T2(n) {"Fr_" #n, 1, t2<Fr_##n>, nullptr}
#define T1(n) {"Fr_" #n, 1, t1<Fr_##n>, nullptr}
#define RAW(n, cost, ...) {n, cost, [](size_t i, size_t j) -> uint64_t { __VA_ARGS__ }, nullptr}
#define CPT(name, cost, C, body) RAW(name, cost, C::Point r; W.body; return dig(r);),
#define CPA(name, cost, C, body) RAW(name, cost, C::PointAffine r; W.body; return dig(r);),
// every overload
#define CURVE(S, C, c, p, a) \
    CPT(S " add Pa", 1, C, c->add(r, W.a[i], W.p[j])) CPA(S " A=PP", 2, C, c->add(r, W.p[i], W.p[j])) CPA(S " A=Pa", 2, C, c->add(r, W.p[i], W.a[j])) CPA(S " A=aa", 2, C, c->add(r, W.a[i], W.a[j])) CPA(S " A=aP", 2, C, c->add(r, W.a[i], W.p[j])) \
    CPT(S " P=PP", 1, C, c->add(r, W.p[i], W.p[j])) CPT(S " P=Pa", 1, C, c->add(r, W.p[i], W.a[j])) CPT(S " P=aa", 1, C, c->add(r, W.a[i], W.a[j])) \
    CPT(S " P=P-P", 1, C, c->sub(r, W.p[i], W.p[j])) CPT(S " P=P-a", 1, C, c->sub(r, W.p[i], W.a[j])) CPT(S " P=a-a", 1, C, c->sub(r, W.a[i], W.a[j])) CPT(S " P=a-P", 1, C, c->sub(r, W.a[i], W.p[j])) \
    CPA(S " A=P-P", 2, C, c->sub(r, W.p[i], W.p[j])) CPA(S " A=P-a", 2, C, c->sub(r, W.p[i], W.a[j])) CPA(S " A=a-a", 2, C, c->sub(r, W.a[i], W.a[j])) CPA(S " A=a-P", 2, C, c->sub(r, W.a[i], W.p[j])) \
    CPT(S " P=2a", 1, C, c->dbl(r, W.a[i])) CPA(S " A=2P", 2, C, c->dbl(r, W.p[i])) CPA(S " A=2a", 2, C, c->dbl(r, W.a[i])) \
    CPT(S " P=-P", 1, C, c->neg(r, W.p[i])) CPT(S " P=-a", 1, C, c->neg(r, W.a[i])) CPA(S " A=-P", 2, C, c->neg(r, W.p[i])) CPA(S " A=-a", 1, C, c->neg(r, W.a[i])) \
    CPT(S " copy PP", 1, C, c->copy(r, W.p[i])) CPT(S " copy Pa", 1, C, c->copy(r, W.a[i])) CPA(S " copy AP", 2, C, c->copy(r, W.p[i])) CPA(S " copy Aa", 1, C, c->copy(r, W.a[i])) \
    RAW(S " predicates", 1, return W.c->eq(W.p[i], W.p[j]) * 32 + W.c->eq(W.p[i], W.a[j]) * 16 + W.c->eq(W.a[i], W.a[j]) * 8 + W.c->eq(W.a[i], W.p[j]) * 4 + W.c->isZero(W.p[i]) * 2 + W.c->isZero(W.a[j]);), \
    RAW(S " toString 16", 3, return dig(W.c->toString(W.p[i], 16));), CPT(S " affine times", 3, C, c->mulByScalar(r, W.a[i], W.scalar[j], SC))
#ifdef TOWER
#define TOW(name, cost, L, body) RAW(name, cost, L::Element r; W.body; return mix(1, &r, sizeof r);),
#endif
static void u32(std::vector<uint8_t> &b, uint32_t v) { for (int i = 0; i < 4; i++) b.push_back((uint8_t)(v >> (8 * i))); }
static void section(std::vector<uint8_t> &b, uint32_t id, const std::vector<uint8_t> &d) { u32(b, id); u32(b, (uint32_t)d.size()); u32(b, 0); b.insert(b.end(), d.begin(), d.end()); }
static void makeFile(std::vector<uint8_t> &b, bool wtns, uint64_t sd) {
    auto rnd = [&](size_t n) { std::vector<uint8_t> v(n); for (auto &x : v) x = (uint8_t)pbt::splitmix(sd); return v; };
    auto put = [](std::vector<uint8_t> &s, const std::vector<uint8_t> &d) { s.insert(s.end(), d.begin(), d.end()); };
    std::vector<uint8_t> s; b.clear(); put(b, wtns ? std::vector<uint8_t>{'w', 't', 'n', 's'} : std::vector<uint8_t>{'z', 'k', 'e', 'y'}); u32(b, 1);
    if (wtns) { u32(b, 2); u32(s, 32); put(s, rnd(32)); u32(s, (uint32_t)pbt::splitmix(sd)); section(b, 1, s); section(b, 2, rnd(32 * (1 + sd % 5))); return; }
    u32(b, 4); u32(s, 1); section(b, 1, s); s.clear();
    u32(s, 32); put(s, rnd(32)); u32(s, 32); put(s, rnd(32)); for (int k = 0; k < 3; k++) u32(s, (uint32_t)pbt::splitmix(sd)); put(s, rnd(32 * 18)); section(b, 2, s);
    section(b, 3, rnd(sd % 200)); section(b, 4, rnd(4 + 44 * (sd % 7)));
}
static uint64_t sections(BinFileUtils::BinFile &f, size_t i) {
    uint64_t h = 1;
    for (uint32_t id = 1; id <= (i & 1 ? 2u : 4u); id++) {
        uint64_t n = f.getSectionSize(id); h = mix(h * 31 + n, f.getSectionData(id), n);
        f.startReadSection(id); if (n >= 4) h = h * 31 + f.readU32LE(); if (n >= 12) h = h * 31 + f.readU64LE();
        if (n > 12) h = mix(h, f.read(n - 12), n - 12);
        f.endReadSection(n > 12 || n == 12 || n == 4);
    }
    return h;
}
static RawFr &R() { return RawFr::field; }
static void setup() {
    ops = {T2(add), T2(sub), T2(mul), T2(eq), T2(neq), T2(lt), T2(gt), T2(leq), T2(geq), T2(land), T2(lor), T2(band), T2(bor), T2(bxor), T2(shl), T2(shr), T2(pow), T2(idiv), T2(mod), T2(div),
        T1(neg), T1(square), T1(lnot), T1(bnot), T1(copy), T1(toNormal), T1(toLongNormal), T1(toMontgomery), T1(inv),
        RAW("Fr_isTrue", 1, return Fr_isTrue(&W.te[i]) != 0;),
        RAW("Fr_toInt", 1, return (uint64_t)(int64_t)Fr_toInt(&W.small[i]);),
        RAW("Fr_str2element", 2, FrElement r; memset((void *)&r, 0, sizeof r); Fr_str2element(&r, W.text[i].c_str()); return dig(r);),
        RAW("Fr_element2str", 2, char *s = Fr_element2str(&W.te[i]); uint64_t h = dig(std::string(s)); free(s); return h;),
        RAW("raw add", 1, E1 r; R().add(r, W.re[i], W.re[j]); return dig(r);), RAW("raw sub", 1, E1 r; R().sub(r, W.re[i], W.re[j]); return dig(r);),
        RAW("raw neg", 1, E1 r; R().neg(r, W.re[i]); return dig(r);), RAW("raw mul", 1, E1 r; R().mul(r, W.re[i], W.re[j]); return dig(r);),
        RAW("raw square", 1, E1 r; R().square(r, W.re[i]); return dig(r);), RAW("raw mul1", 1, E1 r; R().mul1(r, W.re[i], W.re[j].v[0]); return dig(r);),
        RAW("raw toMontgomery", 1, E1 r; R().toMontgomery(r, W.re[i]); return dig(r);), RAW("raw fromMontgomery", 1, E1 r; R().fromMontgomery(r, W.re[i]); return dig(r);),
        RAW("raw inv", 2, E1 r; R().inv(r, W.re[i]); return dig(r);), RAW("raw div", 2, E1 r; R().div(r, W.re[i], W.re[j]); return dig(r);),
        RAW("raw exp", 3, E1 r; R().exp(r, W.re[i], W.scalar[j], SC); return dig(r);),
        RAW("raw fromString", 2, E1 r; R().fromString(r, W.text[i]); return dig(r);), RAW("raw toString", 2, return dig(R().toString(W.re[i], 10));),
        RAW("raw toRprBE", 2, uint8_t b[Fr_N64 * 8]; R().toRprBE(W.re[i], b, sizeof b); return mix(3, b, sizeof b);), RAW("raw fromRprBE", 2, E1 r; R().fromRprBE(r, W.be[i], sizeof W.be[i]); return dig(r);),
        RAW("raw set", 1, E1 r; R().set(r, (int)(i * 1000) - (int)j); return dig(r);), RAW("raw fromUI", 1, E1 r; R().fromUI(r, i * 77777 + j); return dig(r);),
        RAW("raw toMpz", 2, Z z; R().toMpz(z.get_mpz_t(), W.re[i]); return dig(z.get_str(16));), RAW("raw eq", 1, return R().eq(W.re[i], W.re[j]) * 2 + R().isZero(W.re[i]);),
        RAW("raw constants", 1, return dig(R().one()) ^ dig(R().zero()) * 3 ^ dig(R().negOne()) * 5;),
        RAW("F2 mul", 1, E2 r; W.F2->mul(r, W.e2[i], W.e2[j]); return dig(r);), RAW("F2 square", 1, E2 r; W.F2->square(r, W.e2[i]); return dig(r);), RAW("F2 inv", 2, E2 r; W.F2->inv(r, W.e2[i]); return dig(r);),
        RAW("F2 add", 1, E2 r; W.F2->add(r, W.e2[i], W.e2[j]); return dig(r);), RAW("F2 toString", 2, return dig(W.F2->toString(W.e2[i]));),
        RAW("F2 fromString", 3, E2 r; W.F2->fromString(r, W.tuple[i]); return dig(r);), RAW("splitParStr", 2, auto v = splitParStr(W.tuple[i]); uint64_t h = 0; for (auto &s : v) h = h * 31 + dig(s); return h;),
        RAW("curve add", 1, C1::Point r; W.c1->add(r, W.p1[i], W.p1[j]); return dig(r);), RAW("curve mixed add", 1, C1::Point r; W.c1->add(r, W.p1[i], W.a1[j]); return dig(r);),
        RAW("curve affine add", 1, C1::Point r; W.c1->add(r, W.a1[i], W.a1[j]); return dig(r);), RAW("curve dbl", 1, C1::Point r; W.c1->dbl(r, W.p1[i]); return dig(r);),
        RAW("curve eq", 1, return W.c1->eq(W.p1[i], W.p1[j]) * 2 + W.c1->eq(W.p1[i], W.a1[j]);), RAW("curve to affine", 2, C1::PointAffine r; W.c1->copy(r, W.p1[i]); return dig(r);),
        RAW("curve mul", 3, C1::Point r; W.c1->mulByScalar(r, W.p1[i], W.scalar[j], SC); return dig(r);), RAW("curve affine mul", 3, C1::Point r; W.c1->mulByScalar(r, W.a1[i], W.scalar[j], SC); return dig(r);),
        RAW("curve toString", 3, return dig(W.c1->toString(W.p1[i]));),
        RAW("F2 curve add", 1, C2::Point r; W.c2->add(r, W.p2[i], W.p2[j]); return dig(r);), RAW("F2 curve dbl", 1, C2::Point r; W.c2->dbl(r, W.p2[i]); return dig(r);),
        RAW("F2 curve mul", 3, C2::Point r; W.c2->mulByScalar(r, W.p2[i], W.scalar[j], SC); return dig(r);),
        RAW("buildNaf", 2, uint8_t o[(SC + 2) * 8]; buildNaf(o, W.scalar[i], SC); return mix(5, o, sizeof o);),
        RAW("multiexp", 4, C1::Point r; C1::PointAffine x; ParallelMultiexp<C1> m(*W.c1); size_t n = 1 + j % (K - i); m.multiexp(r, &W.a1[i], W.scalar[i], SC, n, 1); W.c1->copy(x, r); return dig(x);),
#ifdef TOWER
        RAW("F12 mul", 2, L12::Element r; W.f12->mul(r, W.e12[i], W.e12[j]); return mix(1, &r, sizeof r);), RAW("F12 square", 2, L12::Element r; W.f12->square(r, W.e12[i]); return mix(1, &r, sizeof r);),
        RAW("F12 inv", 3, L12::Element r; W.f12->inv(r, W.e12[i]); return mix(1, &r, sizeof r);), RAW("F12 Frobenius", 2, L12::Element r; W.f12->Frobenius(r, W.e12[i]); return mix(1, &r, sizeof r);),
        RAW("F12 exp", 4, L12::Element r; W.f12->exp(r, W.e12[i], W.scalar[j], SC); return mix(1, &r, sizeof r);), RAW("F12 toString", 3, return dig(W.f12->toString(W.e12[i]));),
#endif
        RAW("F2 sub", 1, E2 r; W.F2->sub(r, W.e2[i], W.e2[j]); return dig(r);), RAW("F2 neg", 1, E2 r; W.F2->neg(r, W.e2[i]); return dig(r);), RAW("F2 dbl", 1, E2 r; W.F2->dbl(r, W.e2[i]); return dig(r);),
        RAW("F2 conjugate", 1, E2 r; W.F2->conjugate(r, W.e2[i]); return dig(r);), RAW("F2 mulScalar", 1, E2 r; W.F2->mulScalar(r, W.e2[i], W.re[j]); return dig(r);), RAW("F2 mulXi", 1, E2 r; W.F2->mulXi(r, W.e2[i]); return dig(r);),
        RAW("F2 div", 2, E2 r; W.F2->div(r, W.e2[i], W.e2[j]); return dig(r);), RAW("F2 predicates", 1, return W.F2->eq(W.e2[i], W.e2[j]) * 4 + W.F2->isZero(W.e2[i]) * 2 + W.F2->isOne(W.e2[j]);),
        RAW("F2 copy", 1, E2 r; W.F2->copy(r, W.e2[i]); return dig(r);), RAW("F2 toString 16", 2, return dig(W.F2->toString(W.e2[i], 16));),
        RAW("F2 constants", 1, return dig(W.F2->one()) ^ dig(W.F2->zero()) * 3 ^ dig(W.F2->negOne()) * 5;),
        RAW("a new F2", 3, Ext2 f(W.nrText); E2 r; f.mul(r, W.e2[i], W.e2[j]); return dig(r) ^ dig(f.one()) * 3;),
        RAW("raw swap", 1, E1 a = W.re[i]; E1 b = W.re[j]; R().swap(a, b); return dig(a) * 31 + dig(b);), RAW("raw copy", 1, E1 r; R().copy(r, W.re[i]); return dig(r);), RAW("raw fromMpz", 2, Z z(W.text[i]); mpz_mod(z.get_mpz_t(), z.get_mpz_t(), M.q.get_mpz_t()); E1 r; R().fromMpz(r, z.get_mpz_t()); return dig(r);),
        RAW("raw add by value", 1, return dig(R().add(W.re[i], W.re[j]));), RAW("raw sub by value", 1, return dig(R().sub(W.re[i], W.re[j]));), RAW("raw mul by value", 1, return dig(R().mul(W.re[i], W.re[j]));),
        RAW("raw neg by value", 1, return dig(R().neg(W.re[i]));), RAW("raw square by value", 1, return dig(R().square(W.re[i]));), RAW("raw add int", 1, return dig(R().add(W.re[i], (int)j - 5));), RAW("raw int sub", 1, return dig(R().sub((int)j - 5, W.re[i]));), RAW("raw int mul", 1, return dig(R().mul((int)j - 5, W.re[i]));),
        RAW("raw toString 16", 2, return dig(R().toString(W.re[i], 16));), RAW("a new raw field", 2, RawFr f; E1 r; f.mul(r, W.re[i], f.negOne()); return dig(r);), RAW("Fr_copyn", 1, FrElement r[3]; memset((void *)r, 0, sizeof r); size_t n = 1 + j % 3; size_t at = i < K - 3 ? i : K - 3; Fr_copyn(r, &W.te[at], (int)n); uint64_t h = 0; for (size_t k = 0; k < n; k++) h = h * 31 + dig(r[k]); return h;),
        RAW("log2", 1, return log2((uint32_t)(W.re[i].v[0] | 1));),
        RAW("multiexp with columns", 4, C1::Point r; C1::PointAffine x; size_t n = 1 + j % (K - i); W.c1->multiMulByScalar(r, &W.a1[i], W.scalar[i], SC, n, 3, W.cols, 1); W.c1->copy(x, r); return dig(x);),
        RAW("F2 multiexp", 4, C2::Point r; C2::PointAffine x; size_t n = 1 + j % (K - i); W.c2->multiMulByScalar(r, &W.a2[i], W.scalar[i], SC, n, 1); W.c2->copy(x, r); return dig(x);),
        RAW("a new curve", 4, C1 c(BaseF::field, W.ca, W.cb, W.gx, W.gy); C1::Point r; c.add(r, c.one(), W.a1[i]); return dig(r) ^ dig(c.oneAffine()) * 3 ^ dig(c.zero()) * 5 ^ dig(c.zeroAffine()) * 7 ^ dig(c.a()) * 11 ^ dig(c.b()) * 13;),
        CURVE("curve", C1, c1, p1, a1) CURVE("F2 curve", C2, c2, p2, a2)
        RAW("container from memory", 3, BinFileUtils::BinFile f(W.file[i].data(), W.file[i].size(), i & 1 ? "wtns" : "zkey", 2); return sections(f, i);),
        RAW("container from disk", 4, BinFileUtils::BinFile f(W.path[i], i & 1 ? "wtns" : "zkey", 2); return sections(f, i);),
        RAW("container opened", 4, auto f = BinFileUtils::openExisting(W.path[i], i & 1 ? "wtns" : "zkey", 2); return sections(*f, i);),
        RAW("damaged container", 3, std::string e; size_t n = W.file[i].size() * (j + 1) / (K + 2); try { BinFileUtils::BinFile f(W.file[i].data(), n, i & 1 ? "wtns" : "zkey", 2); e = "none"; } catch (std::exception *x) { e = x->what(); delete x; } catch (std::exception &x) { e = x.what(); } return dig(e);),
        RAW("header", 3, BinFileUtils::BinFile f(W.file[i].data(), W.file[i].size(), i & 1 ? "wtns" : "zkey", 2);
            if (i & 1) { auto h = WtnsUtils::loadHeader(&f); return mix(h->n8 * 31 + h->nVars, mpz_limbs_read(h->prime), 8 * mpz_size(h->prime)); }
            auto h = ZKeyUtils::loadHeader(&f); uint64_t v = ((h->n8q * 31ull + h->n8r) * 31 + h->nVars) * 31 + h->nPublic; v = (v * 31 + h->domainSize) * 31 + h->nCoefs;
            v = mix(v, h->vk_alpha1, 64); v = mix(v, h->vk_beta1, 64); v = mix(v, h->vk_beta2, 128); v = mix(v, h->vk_gamma2, 128); v = mix(v, h->vk_delta1, 64); v = mix(v, h->vk_delta2, 128);
            return mix(mix(v, mpz_limbs_read(h->qPrime), 8 * mpz_size(h->qPrime)), mpz_limbs_read(h->rPrime), 8 * mpz_size(h->rPrime));),
#ifdef TOWER
        TOW("F12 add", 1, L12, f12->add(r, W.e12[i], W.e12[j])) TOW("F12 sub", 1, L12, f12->sub(r, W.e12[i], W.e12[j])) TOW("F12 neg", 1, L12, f12->neg(r, W.e12[i])) TOW("F12 conjugate", 1, L12, f12->conjugate(r, W.e12[i])) TOW("F12 copy", 1, L12, f12->copy(r, W.e12[i]))
        TOW("F12 mulScalar", 2, L12, f12->mulScalar(r, W.e12[i], W.e6[j])) TOW("F12 FrobeniusP2", 2, L12, f12->FrobeniusP2(r, W.e12[i])) TOW("F12 div", 3, L12, f12->div(r, W.e12[i], W.e12[j])) TOW("F12 fromString", 4, L12, f12->fromString(r, W.text12[i]))
        TOW("F6 add", 1, L6, f6->add(r, W.e6[i], W.e6[j])) TOW("F6 sub", 1, L6, f6->sub(r, W.e6[i], W.e6[j])) TOW("F6 neg", 1, L6, f6->neg(r, W.e6[i])) TOW("F6 copy", 1, L6, f6->copy(r, W.e6[i])) TOW("F6 dbl", 1, L6, f6->dbl(r, W.e6[i]))
        TOW("F6 mul", 2, L6, f6->mul(r, W.e6[i], W.e6[j])) TOW("F6 square", 2, L6, f6->square(r, W.e6[i])) TOW("F6 inv", 3, L6, f6->inv(r, W.e6[i])) TOW("F6 div", 3, L6, f6->div(r, W.e6[i], W.e6[j])) TOW("F6 mulScalar", 1, L6, f6->mulScalar(r, W.e6[i], W.e2[j])) TOW("F6 mulGFP", 1, L6, f6->mulGFP(r, W.e6[i], W.re[j]))
        TOW("F6 mulTau", 1, L6, f6->mulTau(r, W.e6[i])) TOW("F6 Frobenius", 2, L6, f6->Frobenius(r, W.e6[i])) TOW("F6 FrobeniusP2", 2, L6, f6->FrobeniusP2(r, W.e6[i])) RAW("F6 toString", 3, return dig(W.f6->toString(W.e6[i]));),
        RAW("tower predicates", 1, return W.f12->eq(W.e12[i], W.e12[j]) * 32 + W.f12->isZero(W.e12[i]) * 16 + W.f12->isOne(W.e12[i]) * 8 + W.f6->eq(W.e6[i], W.e6[j]) * 4 + W.f6->isZero(W.e6[i]) * 2 + W.f6->isOne(W.e6[i]);),
        RAW("new towers", 4, L12 f; L12::Element r; f.Frobenius(r, W.e12[i]); L6 g; L6::Element u; g.FrobeniusP2(u, W.e6[j]); return mix(mix(1, &r, sizeof r), &u, sizeof u);),
#endif
    };
    static const std::map<std::string, const Op *> byName = [] { std::map<std::string, const Op *> m; for (auto *l : {&ringOps(), &divOps(), &cmpOps(), &bitOps(), &repOps()}) for (auto &o : *l) m[std::string("Fr_") + o.name] = &o; return m; }();
    for (auto &o : ops) { auto it = byName.find(o.name); if (it != byName.end()) o.fr = it->second; }
}
// the world of a case: values are drawn, the rest is expanded from one seed
static void genWorld(pbt::Tape &t) {
    MField f(1); Z nr = M.q - 1; W.tv.clear();
    for (long v = -1; mpz_legendre(nr.get_mpz_t(), M.q.get_mpz_t()) != -1; v--) nr = M.mod(Z(v));
    MField f2(2, nr); E1 enr; put(enr, nr); W.F2.reset(new Ext2(enr));
    for (size_t i = 0; i < K; i++) {
        TV x = genElem(t); if (i % 3) for (int k = 0; x.v == 0 && k < 20; k++) x = genElem(t);
        W.te[i] = x.e; W.tv.push_back(x.v);
        const char *c; W.small[i] = encode(M.mod(Z((long)genInt32(t, &c))), (Rep)t.below(4), 0);
        W.text[i] = Z(fm::genValue(t, M) * 3).get_str();
        ME v = genME(t, f); if (f.isZero(v)) v = f.one(); put(W.re[i], v);
        for (int k = 0; k < Fr_N64 * 8; k++) W.be[i][Fr_N64 * 8 - 1 - k] = (uint8_t)Z((v[0] >> (8 * k)) & 255).get_ui();
        ME w = genME(t, f2); if (f2.isZero(w)) w = f2.one(); put(W.e2[i], w); W.tuple[i] = "(" + textE(f2, w) + ")";
        auto s = genScalar(t, SC); memcpy(W.scalar[i], s.data(), SC);
    }
    CurveCase k1 = genCurve(t, f), k2 = genCurve(t, f2);
    { C1::PointAffine g; E1 a, b; put(a, k1.c.a); put(b, k1.c.b); putA(g, k1.g, f); W.c1.reset(new C1(BaseF::field, a, b, g.x, g.y)); }
    { C2::PointAffine g; E2 a, b; put(a, k2.c.a); put(b, k2.c.b); putA(g, k2.g, f2); W.c2.reset(new C2(*W.F2, a, b, g.x, g.y)); }
    MP m1 = k1.g, m2 = k2.g;
    for (size_t i = 0; i < K; i++) {
        ME l = genME(t, f), l2 = genME(t, f2); if (!f.invertible(l)) l = f.one(); if (!f2.invertible(l2)) l2 = f2.one();
        putP(W.p1[i], m1, f, l); putA(W.a1[i], m1, f); putP(W.p2[i], m2, f2, l2); putA(W.a2[i], m2, f2);
        m1 = k1.c.add(m1, k1.g); m2 = k2.c.add(m2, k2.g);
    }
    W.nrText = nr.get_str(); W.ca = textE(f, k1.c.a); W.cb = textE(f, k1.c.b); W.gx = textE(f, k1.g.x); W.gy = textE(f, k1.g.y);
    uint64_t fs = t.u64(); for (auto &x : W.cols) x = pbt::splitmix(fs) % 5;
    static int fds[K]; static pid_t made = 0; if (made != getpid()) { if (made) for (auto &x : fds) close(x); made = getpid(); for (auto &x : fds) x = memfd_create("case", 0); }
    for (size_t i = 0; i < K; i++) {
        makeFile(W.file[i], i & 1, pbt::splitmix(fs)); W.path[i] = "/proc/self/fd/" + std::to_string(fds[i]);
        if (fds[i] < 0 || ftruncate(fds[i], 0) || pwrite(fds[i], W.file[i].data(), W.file[i].size(), 0) != (ssize_t)W.file[i].size()) abort();
    }
#ifdef TOWER
    static L6 l6; static L12 l12; W.f6 = &l6; W.f12 = &l12; uint64_t sd = t.u64();
    for (size_t i = 0; i < K; i++) { E2 *c = (E2 *)&W.e12[i]; for (size_t k = 0; k < 6; k++) { Z a = (long)(pbt::splitmix(sd) >> 1), b = (long)(pbt::splitmix(sd) >> 1); put(c[k], ME{M.mod(a * a * a * a), M.mod(b * b * b * b)}); } W.e6[i] = i & 1 ? W.e12[i].x : W.e12[i].y; W.text12[i] = l12.toString(W.e12[i]); }
#endif
}
struct Step { uint16_t op; uint8_t i, j; uint64_t want; };
static uint64_t worldDigest() { uint64_t h = mix(1, W.te, sizeof W.te); h = mix(h, W.re, sizeof W.re); h = mix(h, W.e2, sizeof W.e2); h = mix(h, W.scalar, sizeof W.scalar); h = mix(h, W.p1, sizeof W.p1); h = mix(h, W.a1, sizeof W.a1); return mix(h, W.p2, sizeof W.p2); }
static void runCase(pbt::Tape &t) {
    genWorld(t);
    bool hot = t.coin(3, 4);              // every thread runs the same operations, in the same order
    size_t T = 2 + t.below(5);
    std::vector<uint16_t> common; for (size_t k = hot ? 1 + t.below(8) : 0; k > 0; k--) common.push_back((uint16_t)t.below(ops.size()));
    t.note("%zu threads, %s:", T, hot ? "each" : "mixed operations");
    for (uint16_t o : common) t.note(" %s", ops[o].name);
    std::vector<std::vector<Step>> list(T); size_t reps = 0, real = 0;
    for (size_t k = 0; k < T; k++) {
        size_t n = hot ? common.size() * (1 + t.below(3)) : 1 + t.below(12);
        for (size_t s = 0; s < n; s++) {
            Step st; st.op = hot ? common[s * common.size() / n] : (uint16_t)t.below(ops.size()); st.i = (uint8_t)t.below(K); st.j = (uint8_t)t.below(K);
            const TOp &o = ops[st.op];
            if (o.fr && !o.fr->domain(W.tv[st.i], W.tv[st.j])) st.i = st.j = 1;
            if (o.fr && !o.fr->domain(W.tv[st.i], W.tv[st.j])) continue;
            static const unsigned per[] = {0, 1, 4, 40, 120};
            reps = std::max<size_t>(reps, per[o.cost]);
            list[k].push_back(st); real++;
            if (!hot) t.note(" %s", o.name);
        }
    }
    if (!real) throw pbt::Discard();
    if (!hot) t.label("mixed"); else t.label("%s", ops[common[0]].name);
    if (T >= 2 && real >= 2) t.nontrivial();
    for (auto &l : list) for (auto &s : l) s.want = ops[s.op].f(s.i, s.j);
    uint64_t before = worldDigest();
#ifdef FEW
    reps = FEW;
#else
    reps = std::max<size_t>(2, 400 / reps);
#endif
    std::atomic<unsigned> ready(0); std::atomic<bool> go(false);
    struct Bad { bool bad = false; size_t at = 0; }; std::vector<Bad> bad(T);
    std::vector<std::thread> th;
    for (size_t k = 0; k < T; k++) th.emplace_back([&, k] {
        ready++; while (!go) std::this_thread::yield();
        for (size_t x = 0, n = list[k].size(), s; x < n * reps; x++) if (s = hot ? x / reps : x % n, ops[list[k][s].op].f(list[k][s].i, list[k][s].j) != list[k][s].want && !bad[k].bad) { bad[k].bad = true; bad[k].at = s; }
    });
    while (ready < T) std::this_thread::yield();
    go = true;
    for (auto &x : th) x.join();
    for (size_t k = 0; k < T; k++) if (bad[k].bad) pbt::fail("with %zu threads, %s gave another result than alone", T, ops[list[k][bad[k].at].op].name);
    PBT_CHECK(worldDigest() == before, "a shared operand changed");
    for (auto &l : list) for (auto &s : l) PBT_CHECK(ops[s.op].f(s.i, s.j) == s.want, "after the threads ended, %s gives another result than before", ops[s.op].name);
}
int main(int argc, char **argv) {
    setup();
    pbt::addProp("C24/threads", 1, runCase, 60);
    return pbt::mainDriver(argc, argv);
}
