// C25: the alt_bn128 engine (an Engine object or the objects of the namespace) against the published curve.
#include "ext.hpp"
#include "misc.hpp"
#include "multiexp.hpp"
#include "msm.hpp"
#include "fft.hpp"

extern "C" int get_nprocs(void) noexcept { const char *e = getenv("PBT_NPROCS"); return e ? atoi(e) : 4; }
using AltBn128::Engine;

static const fm::Model MR(RHEX);
static Z dec(const char *s) { return Z(s, 10); }
// EIP-197: y^2 = x^3 + 3 through (1, 2); its sextic twist y^2 = x^3 + 3/(9+u) over F_q[u]/(u^2 + 1) and that group's generator
static const CurveCase &ref(int g) {
    static const CurveCase k1 = [] { CurveCase k; k.c.f = MField(1); k.c.a = k.c.f.zero(); k.c.b = k.c.f.fromInt(3); k.g.inf = false; k.g.x = k.c.f.one(); k.g.y = k.c.f.fromInt(2); k.cls = "G1"; return k; }();
    static const CurveCase k2 = [] { CurveCase k; k.c.f = MField(2, M.q - 1); k.c.a = k.c.f.zero(); k.c.b = k.c.f.div(k.c.f.fromInt(3), ME{Z(9), Z(1)}); k.g.inf = false;
        k.g.x = {dec("10857046999023057135944570762232829481370756359578518086990519993285655852781"), dec("11559732032986387107991004021392285783925812861821192530917403151452391805634")};
        k.g.y = {dec("8495653923123431417604973247489272438418190587263600148770280649306958101930"), dec("4082367875863433681332203403145435568316851327593401208105741076214120093531")};
        k.cls = "G2"; return k; }();
    return g == 1 ? k1 : k2;
}
typedef Engine::Fr FrF; typedef FrF::Element ER;
static void putR(FrF &F, ER &e, const Z &v) { mpz_t m; mpz_init_set(m, v.get_mpz_t()); F.fromMpz(e, m); mpz_clear(m); }
static Z getR(FrF &F, const ER &e) { Z r; F.toMpz(r.get_mpz_t(), e); return r; }
static std::vector<uint8_t> bytesR(FrF &F, ER &e) { std::vector<uint8_t> b(32, 0); Z v = getR(F, e); size_t c; if (v < 0 || v >= MR.q) pbt::fail("a scalar is %s, outside the field", fm::hex(v).c_str()); mpz_export(b.data(), &c, -1, 1, -1, 0, v.get_mpz_t()); return b; }

// what a program uses: the objects of an engine or of the namespace
struct View {
    std::vector<std::unique_ptr<Engine>> own; std::string what;
    Engine::F1 *f1; Engine::F2 *f2; FrF *fr; Engine::G1 *g1; Engine::G2 *g2;
    void from(Engine &e) { f1 = &e.f1; f2 = &e.f2; fr = &e.fr; g1 = &e.g1; g2 = &e.g2; }
    View(pbt::Tape &t) {
        switch (t.weighted({3, 3, 2, 2})) {
        case 0: what = "Engine::engine"; from(Engine::engine); break;
        case 1: what = "namespace objects"; f1 = &AltBn128::F1; f2 = &AltBn128::F2; fr = &AltBn128::Fr; g1 = &AltBn128::G1; g2 = &AltBn128::G2; break;
        case 2: what = "an engine of its own"; own.emplace_back(new Engine); from(*own[0]); break;
        default: {                       // several engines, the others destroyed
            size_t n = 2 + t.below(3), k = t.below(n); what = "one of " + std::to_string(n) + " engines, the others destroyed";
            for (size_t i = 0; i < n; i++) own.emplace_back(new Engine);
            for (size_t i = 0; i < n; i++) if (i != k) { Engine *e = own[i].release(); e->~Engine(); memset((void *)e, 0x5a, sizeof *e); ::operator delete((void *)e); }
            from(*own[k]); }
        }
    }
    Engine::G1 &curve(Engine::F1 *) { return *g1; }
    Engine::G2 &curve(Engine::F2 *) { return *g2; }
};
template <class BF> struct Run {
    typedef typename Lib<BF>::C C; typedef typename Lib<BF>::P P; typedef typename Lib<BF>::A A;
    static const CurveCase &k() { return ref(std::is_same<BF, Engine::F1>::value ? 1 : 2); }
    static C &curve(View &v) { return v.curve((BF *)nullptr); }
    static void is(P &p, const Z &mult, const char *what) {
        MP got = getP(p, k().c.f), want = k().c.mul(k().g, MR.mod(mult));
        PBT_CHECK(k().c.eq(got, want), "%s is %s, expected %s (the generator times %s)", what, showP(k().c, got).c_str(), showP(k().c, want).c_str(), fm::hex(MR.mod(mult)).c_str());
    }
    static void constants(pbt::Tape &t) {
        View v(t); C &c = curve(v); const MField &f = k().c.f;
        t.label("%s constants, %s", k().cls, v.what.c_str()); t.note("%s constants, %s", k().cls, v.what.c_str()); t.nontrivial();
        PBT_CHECK(get(c.a()) == k().c.a && get(c.b()) == k().c.b, "a or b of %s is wrong", k().cls);
        PBT_CHECK(k().c.eq(getP(c.one(), f), k().g) && k().c.eq(getA(c.oneAffine(), f), k().g), "the generator of %s is %s", k().cls, showP(k().c, getP(c.one(), f)).c_str());
        PBT_CHECK(getP(c.zero(), f).inf && getA(c.zeroAffine(), f).inf, "the zero of %s is wrong", k().cls);
        PBT_CHECK(get(v.f1->one()) == (ME{Z(1), Z(0)}) && get(v.f1->zero()) == (ME{Z(0), Z(0)}) && get(v.f1->negOne()) == (ME{M.q - 1, Z(0)}), "a constant of F1 is wrong");
        PBT_CHECK(getR(*v.fr, v.fr->one()) == 1 && getR(*v.fr, v.fr->zero()) == 0 && getR(*v.fr, v.fr->negOne()) == MR.q - 1, "a constant of Fr is wrong");
        E2 u, w; put(u, ME{Z(0), Z(1)}); v.f2->square(w, u);
        PBT_CHECK(get(w) == (ME{M.q - 1, Z(0)}), "u squared is not -1 in F2");
        // the order of the group, on a random multiple of the generator
        std::vector<uint8_t> s = genScalar(t, 32), r(32, 0); size_t cnt; mpz_export(r.data(), &cnt, -1, 1, -1, 0, MR.q.get_mpz_t());
        P p, z; c.mulByScalar(p, c.one(), s.data(), 32); c.mulByScalar(z, p, r.data(), 32);
        is(p, scalarZ(s.data(), 32), "the product"); PBT_CHECK(c.isZero(z), "%s: the order times a point is not zero", k().cls);
    }
    // the group over the scalar field: (s+t)P = sP + tP, (st)P = s(tP), (1/s)(sP) = P
    static void linear(pbt::Tape &t) {
        View v(t); C &c = curve(v); FrF &R = *v.fr;
        Z zk = fm::genValue(t, MR), zs = fm::genValue(t, MR), zt = fm::genValue2(t, MR, zs);
        ER s, u, w; putR(R, s, zs); putR(R, u, zt);
        t.label("%s linear, %s", k().cls, v.what.c_str()); t.note("%s, %s: P = %s G, scalars %s and %s", k().cls, v.what.c_str(), fm::hex(zk).c_str(), fm::hex(zs).c_str(), fm::hex(zt).c_str());
        if (zk != 0 && zs > 1 && zt > 1) t.nontrivial();
        P p, sp, tp, l, r; ER kk; putR(R, kk, zk); auto kb = bytesR(R, kk);
        if (t.coin()) c.mulByScalar(p, c.oneAffine(), kb.data(), 32); else c.mulByScalar(p, c.one(), kb.data(), 32);
        auto mul = [&](P &o, P &a, ER &e) { auto b = bytesR(R, e); if (t.coin()) { A x; c.copy(x, a); c.mulByScalar(o, x, b.data(), 32); } else c.mulByScalar(o, a, b.data(), 32); };
        is(p, zk, "P"); mul(sp, p, s); mul(tp, p, u); is(sp, zk * zs, "sP");
        R.add(w, s, u); mul(l, p, w); c.add(r, sp, tp); PBT_CHECK(c.eq(l, r), "(s+t)P is not sP + tP"); is(l, zk * (zs + zt), "(s+t)P");
        R.sub(w, s, u); mul(l, p, w); c.sub(r, sp, tp); PBT_CHECK(c.eq(l, r), "(s-t)P is not sP - tP");
        R.mul(w, s, u); mul(l, p, w); mul(r, tp, s); PBT_CHECK(c.eq(l, r), "(st)P is not s(tP)"); is(r, zk * zs * zt, "s(tP)");
        R.neg(w, s); mul(l, p, w); c.neg(r, sp); PBT_CHECK(c.eq(l, r), "(-s)P is not -(sP)");
        if (zs != 0) { R.inv(w, s); mul(l, sp, w); PBT_CHECK(c.eq(l, p), "(1/s)(sP) is not P"); R.div(w, u, s); mul(l, sp, w); PBT_CHECK(c.eq(l, tp), "(t/s)(sP) is not tP"); }
        std::string text = R.toString(s); PBT_CHECK(text == zs.get_str(), "the scalar is written as %s", text.c_str());
    }
    // a polynomial commitment: the sum over the coefficients with [x^i]G is the sum over the values with [L_j(x)]G
    static void commit(pbt::Tape &t) {
        View v(t); C &c = curve(v); FrF &R = *v.fr; const MField &f = k().c.f;
        unsigned pw = (unsigned)t.below(std::is_same<BF, Engine::F1>::value ? 6 : 4); size_t n = (size_t)1 << pw;
        Z x = fm::genValue(t, MR); std::vector<Z> coef(n); size_t live = 0;
        std::vector<ER> cf(n), ev(n), pows(n), lag(n);
        for (size_t i = 0; i < n; i++) { coef[i] = t.coin(1, 5) ? Z(0) : fm::genValue(t, MR); putR(R, cf[i], coef[i]); R.copy(ev[i], cf[i]); if (coef[i] > 1) live++; }
        t.label("%s commitment, 2^%u coefficients, %s", k().cls, pw, v.what.c_str()); t.note("%s commitment at %s to 2^%u coefficients from %s, %s", k().cls, fm::hex(x).c_str(), pw, fm::hex(coef[0]).c_str(), v.what.c_str());
        if (live && x > 1) t.nontrivial();
        Z val = 0, xp = 1; ER ex; putR(R, ex, x);
        for (size_t i = 0; i < n; i++) { val += coef[i] * xp; xp = MR.mod(xp * x); if (i == 0) R.copy(pows[0], R.one()); else R.mul(pows[i], pows[i - 1], ex); R.copy(lag[i], pows[i]); }
        FFT<FrF> fft(n << t.below(3)); fft.fft(ev.data(), n); fft.ifft(lag.data(), n);
        std::vector<A> b1(n), b2(n); std::vector<uint8_t> s1(32 * n), s2(32 * n);
        for (size_t i = 0; i < n; i++) {
            P p; auto e = bytesR(R, pows[i]); c.mulByScalar(p, c.one(), e.data(), 32); c.copy(b1[i], p);
            e = bytesR(R, lag[i]); c.mulByScalar(p, c.oneAffine(), e.data(), 32); c.copy(b2[i], p);
            e = bytesR(R, cf[i]); memcpy(&s1[32 * i], e.data(), 32); e = bytesR(R, ev[i]); memcpy(&s2[32 * i], e.data(), 32);
        }
        P r; unsigned th = (unsigned)t.below(6);
        c.multiMulByScalar(r, b1.data(), s1.data(), 32u, (unsigned)n, th); is(r, val, "the sum over coefficients");
        c.multiMulByScalarMSM(r, b1.data(), s1.data(), 32u, (unsigned)n, th); is(r, val, "the MSM over coefficients");
        c.multiMulByScalar(r, b2.data(), s2.data(), 32u, (unsigned)n, th); is(r, val, "the sum over values");
        c.multiMulByScalarMSM(r, b2.data(), s2.data(), 32u, (unsigned)n, th); is(r, val, "the MSM over values");
        (void)f;
    }
};
// Work done while the program starts: what an engine of its own gives then, which may be before the objects of the
// namespace exist, is what it gives later.  The scalars are those of the run's seed.
struct Early {
    struct One { std::vector<uint8_t> s, u; Engine::G1Point p1, a1, e1; Engine::G2Point p2, a2, e2; Engine::F2Element f, i; std::string t1, t2; };
    std::vector<One> v; std::string ones;
    Early() {
        const char *e = getenv("VERIF_SEED"); uint64_t x = 0x9e3779b97f4a7c15ull * (1 + (e ? strtoull(e, 0, 10) : 1));
        auto rnd = [&] { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x; };
        Engine E; v.resize(24);
        for (size_t i = 0; i < v.size(); i++) {
            One &o = v[i]; o.s.resize(i < 4 ? 1 : 1 + rnd() % 32); for (auto &b : o.s) b = (uint8_t)(i < 4 ? i : rnd()); o.u.resize(1 + rnd() % 32); for (auto &b : o.u) b = (uint8_t)rnd();
            E.g1.mulByScalar(o.p1, E.g1.one(), o.s.data(), (unsigned)o.s.size()); E.g1.mulByScalar(o.e1, E.g1.oneAffine(), o.u.data(), (unsigned)o.u.size()); E.g1.add(o.a1, o.p1, o.e1); E.g1.dbl(o.a1, o.a1);
            E.g2.mulByScalar(o.p2, E.g2.one(), o.s.data(), (unsigned)o.s.size()); E.g2.mulByScalar(o.e2, E.g2.oneAffine(), o.u.data(), (unsigned)o.u.size()); E.g2.add(o.a2, o.p2, o.e2); E.g2.dbl(o.a2, o.a2);
            E.f2.fromString(o.f, "3,5"); Engine::F2Element g; E.f2.copy(g, o.f); for (auto b : o.s) { E.f2.square(o.f, o.f); if (b & 1) E.f2.mul(o.f, o.f, g); }
            E.f2.inv(o.i, o.f); o.t1 = E.g1.toString(o.a1); o.t2 = E.g2.toString(o.a2);
        }
    }
    static void check(pbt::Tape &t);
};
static Early early;
void Early::check(pbt::Tape &t) {
    const One &o = early.v[t.below(early.v.size())]; const CurveCase &k1 = ref(1), &k2 = ref(2); Z s = scalarZ(o.s.data(), o.s.size()), u = scalarZ(o.u.data(), o.u.size());
    t.label("work while the program starts"); t.note("while the program starts: multiples by %s and %s", fm::hex(s).c_str(), fm::hex(u).c_str()); if (s > 1) t.nontrivial();
    auto is = [&](const CurveCase &k, MP got, const Z &m, const char *what) { MP want = k.c.mul(k.g, MR.mod(m)); PBT_CHECK(k.c.eq(got, want), "%s: %s computed while the program starts is %s, expected %s", k.cls, what, showP(k.c, got).c_str(), showP(k.c, want).c_str()); };
    const MField &f1 = k1.c.f, &f2 = k2.c.f;
    is(k1, getP(o.p1, f1), s, "a multiple"); is(k1, getP(o.e1, f1), u, "a multiple of the affine generator"); is(k1, getP(o.a1, f1), 2 * (s + u), "the double of a sum");
    is(k2, getP(o.p2, f2), s, "a multiple"); is(k2, getP(o.e2, f2), u, "a multiple of the affine generator"); is(k2, getP(o.a2, f2), 2 * (s + u), "the double of a sum");
    ME w{Z(3), Z(5)}, g = w; for (auto b : o.s) { w = f2.mul(w, w); if (b & 1) w = f2.mul(w, g); }
    PBT_CHECK(get(o.f) == w, "a power in F2 computed while the program starts is wrong"); PBT_CHECK(get(o.i) == f2.div(f2.one(), w), "an inverse in F2 computed while the program starts is wrong");
    Engine &E = Engine::engine; Engine::G1Point c1 = o.a1; Engine::G2Point c2 = o.a2;
    PBT_CHECK(E.g1.toString(c1) == o.t1 && E.g2.toString(c2) == o.t2, "the text of a point written while the program starts is another one later");
}
int main(int argc, char **argv) {
    typedef Run<Engine::F1> R1; typedef Run<Engine::F2> R2;
    pbt::addProp("C25/constants G1", 2, R1::constants); pbt::addProp("C25/constants G2", 2, R2::constants);
    pbt::addProp("C25/linear G1", 6, R1::linear); pbt::addProp("C25/linear G2", 3, R2::linear);
    pbt::addProp("C25/commit G1", 3, R1::commit); pbt::addProp("C25/commit G2", 2, R2::commit);
    pbt::addProp("C25/start", 1, Early::check);
    return pbt::mainDriver(argc, argv);
}
