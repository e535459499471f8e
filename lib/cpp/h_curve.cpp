// C15: the group law of Curve<RawFr> and Curve<F2Field<RawFr>>.  C16: scalar multiplication and the NAF recoding.
#include "ext.hpp"
#include "naf.hpp"

enum { K_P, K_A };                                   // projective, affine
template <class BF> struct Run {
    typedef typename Lib<BF>::C C; typedef typename Lib<BF>::P P; typedef typename Lib<BF>::A A; typedef typename BF::Element El;

    static std::unique_ptr<C> make(pbt::Tape &t, BF &F, const CurveCase &k) {
        const MField &f = k.c.f;
        if (t.coin()) { El a, b, x, y; put(a, k.c.a); put(b, k.c.b); put(x, k.g.x); put(y, k.g.y); return std::unique_ptr<C>(new C(F, a, b, x, y)); }
        return std::unique_ptr<C>(new C(F, textE(f, k.c.a), textE(f, k.c.b), textE(f, k.g.x), textE(f, k.g.y)));
    }
    // a point that is the generator, a small multiple, the other point, a combination, or the identity
    static MP point(pbt::Tape &t, const CurveCase &k) {
        switch (t.weighted({4, 3, 1, (unsigned)(k.two ? 4 : 0), (unsigned)(k.two ? 2 : 0)})) {
        case 0: return k.g;
        case 1: return k.c.mul(k.g, Z((long)t.range(0, 40) - 20));
        case 2: return MP();
        case 3: return t.coin() ? k.c.neg(k.h) : k.h;
        default: return k.c.add(k.h, k.c.mul(k.g, Z((long)t.range(0, 8) - 4)));
        }
    }
    static MP point2(pbt::Tape &t, const CurveCase &k, const MP &p) {
        switch (t.weighted({5, 2, 2, 1, 1})) {
        case 0: return point(t, k);
        case 1: return p;
        case 2: return k.c.neg(p);
        case 3: return k.c.add(p, p);
        default: return MP();
        }
    }
    static ME scalar(pbt::Tape &t, const MField &f) {
        ME l = t.coin(1, 3) ? f.one() : genME(t, f);
        if (!f.invertible(l)) l = f.one();
        return l;
    }
    struct Slot { P p; A a; };
    static void load(pbt::Tape &t, Slot &s, const MP &m, const MField &f) { putP(s.p, m, f, scalar(t, f), t.coin()); putA(s.a, m, f); }

    // binary operations: r kind, a kind, b kind
    static void bin(pbt::Tape &t, const MField &f, BF &F) {
        CurveCase k = genCurve(t, f);
        auto c = make(t, F, k);
        int ra = (int)t.below(8), sub = (int)t.below(2); int kr = ra & 1, ka = (ra >> 1) & 1, kb = (ra >> 2) & 1;
        Slot s[3]; MP v[2]; junk(s, sizeof s, t.below(1000));
        v[0] = point(t, k); size_t ib = t.coin(1, 6) ? 0 : 1; v[1] = point2(t, k, v[0]);
        load(t, s[0], v[0], f); load(t, s[1], v[1], f);
        size_t ir = 2;
        if (t.coin()) { bool okA = kr == ka, okB = kr == kb; if (okA && (!okB || t.coin())) ir = 0; else if (okB) ir = ib; }
        const MP &a = v[0], &b = v[ib];
        Slot before[3]; memcpy(before, s, sizeof s);
        static const char *kn[] = {"P", "A"};
        const char *rel = a.inf || b.inf ? (a.inf && b.inf ? "O,O" : "with O") : k.c.eq(a, b) ? "equal" : k.c.eq(a, k.c.neg(b)) ? "opposite" : "distinct";
        t.label("%s %s=%s,%s %s%s", sub ? "sub" : "add", kn[kr], kn[ka], kn[kb], rel, f.deg == 2 ? " F2" : "");
        t.note("%s %s=%s,%s on %s %s: %s and %s%s", sub ? "sub" : "add", kn[kr], kn[ka], kn[kb], k.cls, rel, showP(k.c, a).c_str(), showP(k.c, b).c_str(), ir == 2 ? "" : ", result over an operand");
        if (!a.inf && !b.inf) t.nontrivial();
        Slot &R = s[ir], &X = s[0], &Y = s[ib];
#define DO(op) do { \
        if (!kr && !ka && !kb) c->op(R.p, X.p, Y.p); else if (!kr && !ka) c->op(R.p, X.p, Y.a); else if (!kr && !kb) c->op(R.p, X.a, Y.p); else if (!kr) c->op(R.p, X.a, Y.a); \
        else if (!ka && !kb) c->op(R.a, X.p, Y.p); else if (!ka) c->op(R.a, X.p, Y.a); else if (!kb) c->op(R.a, X.a, Y.p); else c->op(R.a, X.a, Y.a); } while (0)
        if (sub) DO(sub); else DO(add);
        check(s, before, ir, kr, f, k, sub ? k.c.sub(a, b) : k.c.add(a, b), sub ? "sub" : "add");
    }
    static void check(Slot *s, Slot *before, size_t ir, int kr, const MField &f, const CurveCase &k, const MP &want, const char *what) {
        MP got = kr == K_P ? getP(s[ir].p, f) : getA(s[ir].a, f);
        PBT_CHECK(k.c.eq(got, want), "%s gives %s, expected %s", what, showP(k.c, got).c_str(), showP(k.c, want).c_str());
        for (size_t i = 0; i < 3; i++) {
            if (i != ir || kr != K_P) PBT_CHECK(!memcmp(&s[i].p, &before[i].p, sizeof(P)), "%s changed an operand (projective slot %zu)", what, i);
            if (i != ir || kr != K_A) PBT_CHECK(!memcmp(&s[i].a, &before[i].a, sizeof(A)), "%s changed an operand (affine slot %zu)", what, i);
        }
    }
    static void un(pbt::Tape &t, const MField &f, BF &F) {
        CurveCase k = genCurve(t, f);
        auto c = make(t, F, k);
        int kr = (int)t.below(2), ka = (int)t.below(2), op = (int)t.below(3);
        Slot s[3]; junk(s, sizeof s, t.below(1000));
        MP a = point(t, k); load(t, s[0], a, f);
        size_t ir = kr == ka && t.coin() ? 0 : 2;
        Slot before[3]; memcpy(before, s, sizeof s);
        static const char *on[] = {"dbl", "neg", "copy"}, *kn[] = {"P", "A"};
        t.label("%s %s=%s%s%s", on[op], kn[kr], kn[ka], a.inf ? " O" : f.isZero(a.y) ? " of order 2" : "", f.deg == 2 ? " F2" : "");
        t.note("%s %s=%s on %s of %s%s", on[op], kn[kr], kn[ka], k.cls, showP(k.c, a).c_str(), ir == 2 ? "" : " in place");
        if (!a.inf) t.nontrivial();
        Slot &R = s[ir], &X = s[0];
#define DO1(o) do { if (!kr && !ka) c->o(R.p, X.p); else if (!kr) c->o(R.p, X.a); else if (!ka) c->o(R.a, X.p); else c->o(R.a, X.a); } while (0)
        if (op == 0) DO1(dbl); else if (op == 1) DO1(neg); else DO1(copy);
        check(s, before, ir, kr, f, k, op == 0 ? k.c.add(a, a) : op == 1 ? k.c.neg(a) : a, on[op]);
    }
    static void preds(pbt::Tape &t, const MField &f, BF &F) {
        CurveCase k = genCurve(t, f);
        auto c = make(t, F, k);
        Slot s[2]; junk(s, sizeof s, t.below(1000));
        MP a = point(t, k), b = point2(t, k, a);
        load(t, s[0], a, f); load(t, s[1], b, f);
        bool e = k.c.eq(a, b);
        t.label("eq, isZero, text%s", f.deg == 2 ? " F2" : ""); t.note("eq, isZero, text on %s: %s and %s", k.cls, showP(k.c, a).c_str(), showP(k.c, b).c_str());
        if (!a.inf && !b.inf) t.nontrivial();
        PBT_CHECK(c->eq(s[0].p, s[1].p) == e, "eq(P,P) is %d", !e); PBT_CHECK(c->eq(s[0].p, s[1].a) == e, "eq(P,A) is %d", !e);
        PBT_CHECK(c->eq(s[0].a, s[1].p) == e, "eq(A,P) is %d", !e); PBT_CHECK(c->eq(s[0].a, s[1].a) == e, "eq(A,A) is %d", !e);
        PBT_CHECK(c->isZero(s[0].p) == a.inf, "isZero(P) is %d", !a.inf); PBT_CHECK(c->isZero(s[0].a) == a.inf, "isZero(A) is %d", !a.inf);
        int radix = t.coin() ? 10 : 2 + (int)t.below(35);
        auto el = [&](const ME &v) { return f.deg == 1 ? v[0].get_str(radix) : "(" + v[0].get_str(radix) + "," + v[1].get_str(radix) + ")"; };
        std::string want = a.inf ? "(" + el(f.zero()) + "," + el(f.zero()) + ")" : "(" + el(a.x) + "," + el(a.y) + ")", got = c->toString(s[0].p, radix);
        PBT_CHECK(got == want, "toString gives %s, expected %s", got.c_str(), want.c_str());
        PBT_CHECK(getP(c->zero(), f).inf && getA(c->zeroAffine(), f).inf, "zero() is not the identity");
        PBT_CHECK(k.c.eq(getP(c->one(), f), k.g) && k.c.eq(getA(c->oneAffine(), f), k.g), "one() is not the point given to the constructor");
        PBT_CHECK(get(c->a()) == k.c.a && get(c->b()) == k.c.b, "a() or b() is not the coefficient given to the constructor");
    }
    // accumulators of both kinds through a chain of operations: results in the forms operations leave them
    static void history(pbt::Tape &t, const MField &f, BF &F) {
        CurveCase k = genCurve(t, f);
        auto c = make(t, F, k);
        const size_t N = 4; P p[N]; A a[N]; MP mp[N], ma[N];
        for (size_t i = 0; i < N; i++) { mp[i] = point(t, k); ma[i] = point(t, k); putP(p[i], mp[i], f, scalar(t, f), t.coin()); putA(a[i], ma[i], f); }
        size_t n = 1 + t.below(16); size_t real = 0;
        t.label("history%s", f.deg == 2 ? " F2" : ""); t.note("history on %s g=%s h=%s:", k.cls, showP(k.c, k.g).c_str(), showP(k.c, k.h).c_str());
        for (size_t s = 0; s < n; s++) {
            size_t r = t.below(N), x = t.below(N), y = t.below(N); int op = (int)t.below(14);
            MP want; bool aff = false;
            switch (op) {
            case 0: want = k.c.add(mp[x], mp[y]); c->add(p[r], p[x], p[y]); break;
            case 1: want = k.c.add(mp[x], ma[y]); c->add(p[r], p[x], a[y]); break;
            case 2: want = k.c.add(ma[x], ma[y]); c->add(p[r], a[x], a[y]); break;
            case 3: want = k.c.sub(mp[x], mp[y]); c->sub(p[r], p[x], p[y]); break;
            case 4: want = k.c.sub(mp[x], ma[y]); c->sub(p[r], p[x], a[y]); break;
            case 5: want = k.c.add(mp[x], mp[x]); c->dbl(p[r], p[x]); break;
            case 6: want = k.c.add(ma[x], ma[x]); c->dbl(p[r], a[x]); break;
            case 7: want = k.c.neg(mp[x]); c->neg(p[r], p[x]); break;
            case 8: want = k.c.neg(ma[x]); c->neg(p[r], a[x]); break;
            case 9: want = mp[x]; aff = true; c->copy(a[r], p[x]); break;
            case 10: want = ma[x]; c->copy(p[r], a[x]); break;
            case 11: want = k.c.neg(mp[x]); aff = true; c->neg(a[r], p[x]); break;
            case 12: want = k.c.neg(ma[x]); aff = true; c->neg(a[r], a[x]); break;
            default: want = k.c.sub(ma[x], mp[y]); c->sub(p[r], a[x], p[y]); break;
            }
            t.note(" op%d r%zu x%zu y%zu", op, r, x, y);
            (aff ? ma : mp)[r] = want;
            if (!want.inf) real++;
            for (size_t i = 0; i < N; i++) {
                PBT_CHECK(k.c.eq(getP(p[i], f), mp[i]), "after step %zu (op %d) projective slot %zu holds %s, expected %s", s, op, i, showP(k.c, getP(p[i], f)).c_str(), showP(k.c, mp[i]).c_str());
                PBT_CHECK(k.c.eq(getA(a[i], f), ma[i]), "after step %zu (op %d) affine slot %zu holds %s, expected %s", s, op, i, showP(k.c, getA(a[i], f)).c_str(), showP(k.c, ma[i]).c_str());
            }
            PBT_CHECK(c->eq(p[x], p[y]) == k.c.eq(mp[x], mp[y]), "after step %zu eq(P%zu,P%zu) is wrong", s, x, y);
            PBT_CHECK(c->eq(p[x], a[y]) == k.c.eq(mp[x], ma[y]), "after step %zu eq(P%zu,A%zu) is wrong", s, x, y);
        }
        if (real >= 2) t.nontrivial();
    }
    static void scalarMul(pbt::Tape &t, const MField &f, BF &F) {
        CurveCase k = genCurve(t, f);
        const Z *order = nullptr;
#ifdef CURVE_ORDER
        static Z ord(CURVE_ORDER, 16);
        if (f.deg == 1 && t.coin(1, 3)) {     // the curve of prime order over this field: y^2 = x^3 + 3 through (1, 2)
            k.c.a = f.zero(); k.c.b = f.fromInt(3); k.g.x = f.fromInt(1); k.g.y = f.fromInt(2); k.two = false; k.cls = "prime order"; order = &ord; }
#endif
        auto c = make(t, F, k);
        size_t n = t.coin(1, 3) ? 32 : 1 + t.below(t.coin(1, 40) ? 300 : t.coin(1, 8) ? 80 : 24);
        const char *cls; std::vector<uint8_t> e = genScalar(t, n, order, &cls);
        Guarded g(n, t.coin(3, 4)); memcpy(g.p, e.data(), n); g.protect();
        Slot s[2]; junk(s, sizeof s, t.below(1000));
        MP b = point(t, k); load(t, s[0], b, f);
        bool aff = t.coin(), inPlace = !aff && t.coin(1, 3);
        A ab = s[0].a;
        t.label("%s base, scalar %s%s", aff ? "affine" : "projective", cls, f.deg == 2 ? " F2" : "");
        t.note("%s times %s%s on %s%s", showS(e).c_str(), showP(k.c, b).c_str(), aff ? " (affine)" : "", k.cls, inPlace ? " in place" : "");
        if (!b.inf && scalarZ(e.data(), n) > 1) t.nontrivial();
        P &R = inPlace ? s[0].p : s[1].p;
        if (aff) c->mulByScalar(R, s[0].a, g.p, (unsigned)n); else c->mulByScalar(R, s[0].p, g.p, (unsigned)n);
        MP want = k.c.mul(b, scalarZ(e.data(), n)), got = getP(R, f);
        PBT_CHECK(k.c.eq(got, want), "the product is %s, expected %s", showP(k.c, got).c_str(), showP(k.c, want).c_str());
        if (order && mpz_divisible_p(scalarZ(e.data(), n).get_mpz_t(), order->get_mpz_t())) PBT_CHECK(got.inf, "a multiple of the order does not give the identity");
        if (aff) PBT_CHECK(!memcmp(&ab, &s[0].a, sizeof ab), "the base changed"); else if (!inPlace) PBT_CHECK(k.c.eq(getP(s[0].p, f), b), "the base changed");
    }
};
static void nafCase(pbt::Tape &t) {
    size_t n = t.coin(1, 3) ? 32 : 1 + t.below(t.coin(1, 60) ? 2000 : t.coin(1, 6) ? 200 : 12);
    const char *cls; std::vector<uint8_t> e = genScalar(t, n, nullptr, &cls);
    Guarded in(n, t.coin(3, 4)); memcpy(in.p, e.data(), n); in.protect();
    size_t m = (n + 2) * 8; bool end = t.coin(3, 4);
    Guarded out(m, end); junk(out.p, m, t.below(1000));
    t.label("naf %s", cls); t.note("NAF of %s", showS(e).c_str());
    if (scalarZ(e.data(), n) > 1) t.nontrivial();
    buildNaf(out.p, in.p, (unsigned)n);
    Z v = 0; bool prev = false;
    for (size_t i = m; i-- > 0;) {
        PBT_CHECK(out.p[i] <= 2, "digit %zu of the NAF is %d", i, out.p[i]);
        bool nz = out.p[i] != 0;
        PBT_CHECK(!(nz && prev), "digits %zu and %zu of the NAF are both nonzero", i, i + 1);
        prev = nz; v = 2 * v + (out.p[i] == 2 ? -1 : (int)out.p[i]);
    }
    PBT_CHECK(v == scalarZ(e.data(), n), "the NAF has the value %s", fm::hex(v).c_str());
}
typedef Run<RawFr> R1; typedef Run<Ext2> R2;
#define BOTH(name, w1, w2, fn) \
    pbt::addProp(name, w1, [](pbt::Tape &t) { static MField f(1); R1::fn(t, f, RawFr::field); }); \
    pbt::addProp(name " F2", w2, [](pbt::Tape &t) { Z nr = genNr2(t); MField f(2, nr); E1 e; put(e, nr); Ext2 F(e); R2::fn(t, f, F); })
// a non-residue: an extension that is a field
static Z genNr2(pbt::Tape &t) {
    for (int i = 0; i < 60; i++) { Z nr = genNr(t); if (mpz_legendre(nr.get_mpz_t(), M.q.get_mpz_t()) == -1) return nr; }
    throw pbt::Discard();
}
int main(int argc, char **argv) {
    BOTH("C15/add-sub", 8, 6, bin); BOTH("C15/dbl-neg-copy", 5, 3, un); BOTH("C15/predicates", 3, 2, preds); BOTH("C15/history", 3, 2, history);
    BOTH("C16/mul", 6, 2, scalarMul);
    pbt::addProp("C16/naf", 8, nafCase);
    return pbt::mainDriver(argc, argv);
}
