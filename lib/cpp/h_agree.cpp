// C10: the assembly build (Fa) and the portable build (Fg) of one field, side by side in one program.
// The oracle is the other backend; the integer model is not consulted.
#include "field.hpp"
#include "side.hpp"

static const Side &A() { return *side_Fa(); }
static const Side &G() { return *side_Fg(); }
static std::string val(const FrElement &e) { Z v; std::string bad = decode(e, v); return bad.empty() ? fm::hex(v) : "(" + bad + ")"; }
static bool shiftName(const char *n) { return !strcmp(n, "shl") || !strcmp(n, "shr"); }
static bool divName(const char *n) { return !strcmp(n, "idiv") || !strcmp(n, "mod") || !strcmp(n, "div"); }

static int findBin(const Side &s, const char *n) { for (int i = 0; i < s.nbin; i++) if (!strcmp(s.binName[i], n)) return i; return -1; }

static void op(pbt::Tape &t) {
    int i = (int)t.below(A().nbin + A().nun); bool bin = i < A().nbin; if (!bin) i -= A().nbin;
    const char *name = bin ? A().binName[i] : A().unName[i];
    TV a = genElem(t), b = a;
    if (bin) { if (shiftName(name)) { const char *c; b.v = genShift(t, &c); b.rep = genRep(t, b.v); b.e = encode(b.v, b.rep, t.below(1000)); } else b = genElem(t, &a.v); }
    if ((divName(name) && b.v == 0) || (!strcmp(name, "inv") && a.v == 0)) throw pbt::Discard();
    FrElement ra = junkElem(t), rg = junkElem(t), a1 = a.e, a2 = a.e, b1 = b.e, b2 = b.e;
    t.note("%s(%s%s%s)", name, show(a).c_str(), bin ? ", " : "", bin ? show(b).c_str() : ""); t.label("%s", name); if (a.v > 1 && b.v > 1) t.nontrivial();
    if (bin) { A().bin[i](&ra, &a1, &b1); G().bin[i](&rg, &a2, &b2); } else { A().un[i](&ra, &a1); G().un[i](&rg, &a2); }
    PBT_CHECK(val(ra) == val(rg), "%s(%s, %s): assembly %s, portable %s", name, show(a).c_str(), bin ? show(b).c_str() : "", val(ra).c_str(), val(rg).c_str());
    char *sa = A().print(&ra), *sg = G().print(&rg); std::string xa = sa, xg = sg;
    PBT_CHECK(xa == xg, "text of %s(%s, %s): assembly %s, portable %s", name, show(a).c_str(), bin ? show(b).c_str() : "", xa.c_str(), xg.c_str());
    // an element one backend produced is understood by the other
    char *sx = A().print(&rg); std::string xx = sx; PBT_CHECK(xx == xa, "the assembly backend reads the portable result of %s as %s, expected %s", name, xx.c_str(), xa.c_str());
    int ta = A().isTrue(&ra), tg = G().isTrue(&rg); PBT_CHECK((ta != 0) == (tg != 0), "isTrue of %s: assembly %d, portable %d", xa.c_str(), ta, tg);
}
static void toInts(pbt::Tape &t) {
    TV a = genElem(t);
    if (t.coin()) { const char *c; Z v = (long)genInt32(t, &c); if (t.coin(1, 3)) v += (long)t.below(4) - 2; a.v = M.mod(v); a.rep = genRep(t, a.v); a.e = encode(a.v, a.rep, t.below(1000)); }
    volatile int ia = 0, ig = 0; FrElement e1 = a.e, e2 = a.e;
    bool ba = pbt::aborts([&] { ia = A().toInt(&e1); }), bg = pbt::aborts([&] { ig = G().toInt(&e2); });
    t.note("toInt(%s)", show(a).c_str()); t.label("toInt %s", ba ? "aborts" : "returns"); if (a.v > 1) t.nontrivial();
    PBT_CHECK(ba == bg && ia == ig, "toInt(%s): assembly %s %d, portable %s %d", show(a).c_str(), ba ? "aborts" : "returns", (int)ia, bg ? "aborts" : "returns", (int)ig);
}
static void history(pbt::Tape &t) {
    const int K = 4; FrElement a[K], g[K]; std::string log; int steps = 0;
    for (int i = 0; i < K; i++) { TV x = genElem(t); a[i] = g[i] = x.e; log += (i ? ", " : "") + show(x); }
    for (; steps < 28 && (steps == 0 || t.below(20) != 0); steps++) {
        int r = (int)t.below(K), x = (r + 1 + (int)t.below(K - 1)) % K, y = (r + 1 + (int)t.below(K - 1)) % K;
        int i = (int)t.below(A().nbin + A().nun); bool bin = i < A().nbin; if (!bin) i -= A().nbin;
        const char *name = bin ? A().binName[i] : A().unName[i];
        Z vx, vy; decode(a[x], vx); decode(a[y], vy);
        if ((divName(name) && vy == 0) || (!strcmp(name, "inv") && vx == 0)) continue;
        log += "; s" + std::to_string(r) + "=" + name + "(s" + std::to_string(x) + (bin ? ",s" + std::to_string(y) : "") + ")";
        if (bin) { A().bin[i](&a[r], &a[x], &a[y]); G().bin[i](&g[r], &g[x], &g[y]); } else { A().un[i](&a[r], &a[x]); G().un[i](&g[r], &g[x]); }
        PBT_CHECK(val(a[r]) == val(g[r]), "after [%s]: assembly %s, portable %s", log.c_str(), val(a[r]).c_str(), val(g[r]).c_str());
    }
    t.note("%s", log.c_str()); t.label("history of %d+", steps / 8 * 8); if (steps > 1) t.nontrivial();
}
static std::string rawHex(const uint64_t *p) { return fm::hex(fm::fromLimbs(p, Fr_N64)); }
static void raw(pbt::Tape &t) {
    uint64_t a1[12], b1[12], r1[12], a2[12], b2[12], r2[12]; Z va = fm::genValue(t, M), vb = fm::genValue2(t, M, va); uint64_t w = t.coin() ? t.u64() : t.below(100);
    auto reset = [&] { fm::toLimbs(a1, Fr_N64, va); fm::toLimbs(a2, Fr_N64, va); fm::toLimbs(b1, Fr_N64, vb); fm::toLimbs(b2, Fr_N64, vb); memset(r1, 0x55, sizeof r1); memset(r2, 0xaa, sizeof r2); };
    t.note("raw(%s, %s, 0x%lx)", fm::hex(va).c_str(), fm::hex(vb).c_str(), w); t.label("raw"); if (va > 1 && vb > 1) t.nontrivial();
    auto same = [&](const char *n, const uint64_t *p, const uint64_t *q) { PBT_CHECK(!memcmp(p, q, 8 * Fr_N64), "%s(%s, %s, 0x%lx): assembly %s, portable %s", n, fm::hex(va).c_str(), fm::hex(vb).c_str(), w, rawHex(p).c_str(), rawHex(q).c_str()); };
    for (int i = 0; i < A().nrbin; i++) {
        int al = (int)t.below(4); reset();
        uint64_t *d1 = al == 1 ? a1 : al == 2 ? b1 : r1, *d2 = al == 1 ? a2 : al == 2 ? b2 : r2;
        A().rbin[i](d1, a1, al == 3 ? a1 : b1); G().rbin[i](d2, a2, al == 3 ? a2 : b2); same(A().rbinName[i], d1, d2);
    }
    for (int i = 0; i < A().nrun; i++) { bool in = t.coin(); reset(); uint64_t *d1 = in ? a1 : r1, *d2 = in ? a2 : r2; A().run[i](d1, a1); G().run[i](d2, a2); same(A().runName[i], d1, d2); }
    reset(); A().mul1(r1, a1, w); G().mul1(r2, a2, w); same("rawMMul1", r1, r2);
    reset(); A().swap(a1, b1); G().swap(a2, b2); same("rawSwap", a1, a2); same("rawSwap", b1, b2);
    reset(); PBT_CHECK((A().isEq(a1, b1) != 0) == (G().isEq(a2, b2) != 0), "rawIsEq(%s, %s) differs", fm::hex(va).c_str(), fm::hex(vb).c_str());
    PBT_CHECK((A().isZero(a1) != 0) == (G().isZero(a2) != 0), "rawIsZero(%s) differs", fm::hex(va).c_str());
    uint64_t n = 1 + t.below(M.bits - 1);
    reset(); A().shl(r1, a1, n); G().shl(r2, a2, n); w = n; same("rawShl", r1, r2);
    reset(); A().shr(r1, a1, n); G().shr(r2, a2, n); same("rawShr", r1, r2);
}
static void cls(pbt::Tape &t) {
    uint64_t a[12], b[12], r1[12], r2[12]; Z va = fm::genValue(t, M), vb = fm::genValue2(t, M, va); if (vb == 0) vb = 1;
    fm::toLimbs(a, Fr_N64, va); fm::toLimbs(b, Fr_N64, vb); int radix = (int)t.range(2, 36);
    t.note("class(%s, %s)", fm::hex(va).c_str(), fm::hex(vb).c_str()); t.label("class"); if (va > 1) t.nontrivial();
    auto same = [&](const char *n) { PBT_CHECK(!memcmp(r1, r2, 8 * Fr_N64), "%s(%s, %s): assembly %s, portable %s", n, fm::hex(va).c_str(), fm::hex(vb).c_str(), rawHex(r1).c_str(), rawHex(r2).c_str()); };
    std::string s1 = A().cToString(a, radix), s2 = G().cToString(a, radix); PBT_CHECK(s1 == s2, "toString differs: %s, %s", s1.c_str(), s2.c_str());
    std::string txt = Z(va + (t.coin() ? M.q : Z(0)) * (t.coin() ? 1 : -1)).get_str(radix);
    A().cFromString(r1, txt, radix); G().cFromString(r2, txt, radix); same("fromString");
    A().cInv(r1, b); G().cInv(r2, b); same("inv"); A().cDiv(r1, a, b); G().cDiv(r2, a, b); same("div");
    int k = (int)(uint32_t)t.u64(); A().cSet(r1, k); G().cSet(r2, k); same("set");
    for (int i = 0; i < 3; i++) { A().cConst(i, r1); G().cConst(i, r2); same("constant"); }
    uint8_t e[12]; int n = (int)t.below(12); for (int i = 0; i < n; i++) e[i] = (uint8_t)t.below(256);
    A().cExp(r1, a, e, n); G().cExp(r2, a, e, n); same("exp");
    uint8_t o1[12 * 8 + 8], o2[12 * 8 + 8]; int m = Fr_N64 * 8 + (int)t.below(9) - 2; memset(o1, 7, sizeof o1); memset(o2, 7, sizeof o2);
    int x = A().cToBE(a, o1, m), y = G().cToBE(a, o2, m); PBT_CHECK(x == y && !memcmp(o1, o2, sizeof o1), "toRprBE differs (%d, %d)", x, y);
    if (x > 0) { x = A().cFromBE(r1, o1, m); y = G().cFromBE(r2, o1, m); PBT_CHECK(x == y, "fromRprBE returned %d, %d", x, y); same("fromRprBE"); }
    for (int i = 0; i < 2; i++) PBT_CHECK(!memcmp(A().constants[i], G().constants[i], 8 * Fr_N64), "constant %s: assembly %s, portable %s", A().constantName[i], rawHex(A().constants[i]).c_str(), rawHex(G().constants[i]).c_str());
    PBT_CHECK(A().n64 == G().n64 && A().maxBits == G().maxBits, "limb count or bit length differ");
}
static void copies(pbt::Tape &t) {
    int n = (int)t.below(6); FrElement src[7], d1[7], d2[7]; for (int i = 0; i < 7; i++) { src[i] = genElem(t).e; d1[i] = d2[i] = junkElem(t); }
    t.note("copyn %d", n); t.label("copyn"); if (n) t.nontrivial();
    A().copyn(d1, src, n); G().copyn(d2, src, n);
    PBT_CHECK(!memcmp(d1, d2, sizeof d1), "copyn of %d elements differs", n);
}

int main(int argc, char **argv) {
    pbt::addProp("C10/op", 10, op, 20);
    pbt::addProp("C10/toInt", 2, toInts, 20);
    pbt::addProp("C10/history", 3, history, 20);
    pbt::addProp("C10/raw", 3, raw, 20);
    pbt::addProp("C10/class", 2, cls, 20);
    pbt::addProp("C10/copyn", 1, copies, 20);
    return pbt::mainDriver(argc, argv);
}
