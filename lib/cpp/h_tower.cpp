// C14: the degree 6 and degree 12 extensions for pairings over the bn128 base field: w^6 = xi = 9 + u, u^2 = -1;
// F6 = F2[t]/(t^3 - xi), F12 = F6[w]/(w^2 - t).  The model keeps an element as its coefficients in powers of t or w.
#include "ext.hpp"
#ifndef ALT_BN128
#include "f6field.hpp"
#include "f12field.hpp"
#endif

static const MField f2(2, M.q - 1);
static const ME XI = {Z(9), Z(1)};
typedef F6Field<Ext2> L6; typedef F12Field<L6> L12;
typedef L6::Element E6; typedef L12::Element E12;
#ifdef ALT_BN128                                   // C25: the fields of the engine object, or of the namespace
static L6 &field(L6 *) { static bool g = getenv("PBT_GLOBALS") != nullptr; return g ? AltBn128::F6 : AltBn128::Engine::engine.f6; }
static L12 &field(L12 *) { static bool g = getenv("PBT_GLOBALS") != nullptr; return g ? AltBn128::F12 : AltBn128::Engine::engine.f12; }
#define PROP "C25/tower "
#else
template <class L> L &field(L *) { static L lib; return lib; }
#define PROP "C14/"
#endif
typedef std::vector<ME> V;                       // 3 or 6 coefficients

static V vmul(const V &a, const V &b) {
    size_t n = a.size(); V r(n, f2.zero());
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) {
        if (f2.isZero(a[i]) || f2.isZero(b[j])) continue;
        ME p = f2.mul(a[i], b[j]);
        if (i + j >= n) p = f2.mul(p, XI);
        r[(i + j) % n] = f2.add(r[(i + j) % n], p);
    }
    return r;
}
template <class F> static V vmap(const V &a, F g) { V r; for (size_t i = 0; i < a.size(); i++) r.push_back(g(a[i], i)); return r; }
static V vadd(const V &a, const V &b) { return vmap(a, [&](const ME &x, size_t i) { return f2.add(x, b[i]); }); }
static V vsub(const V &a, const V &b) { return vmap(a, [&](const ME &x, size_t i) { return f2.sub(x, b[i]); }); }
static V vneg(const V &a) { return vmap(a, [&](const ME &x, size_t) { return f2.neg(x); }); }
static V vconst(size_t n, long v) { V r(n, f2.zero()); r[0] = f2.fromInt(v); return r; }
static V vpow(V a, const Z &e) { V r = vconst(a.size(), 1); for (long i = (long)mpz_sizeinbase(e.get_mpz_t(), 2) - 1; i >= 0; i--) { r = vmul(r, r); if (mpz_tstbit(e.get_mpz_t(), i)) r = vmul(r, a); } return r; }
static ME f2pow(const ME &a, const Z &e) { ME r = f2.one(); for (long i = (long)mpz_sizeinbase(e.get_mpz_t(), 2) - 1; i >= 0; i--) { r = f2.sq(r); if (mpz_tstbit(e.get_mpz_t(), i)) r = f2.mul(r, a); } return r; }
// the p-power map: conjugate the coefficients; (w^i)^p = w^i * xi^(i(p-1)/6), (t^i)^p = t^i * xi^(i(p-1)/3)
static V frob(const V &a) {
    static std::map<size_t, V> tab;
    size_t n = a.size();
    if (tab.find(n) == tab.end()) { V g; ME base = f2pow(XI, (M.q - 1) / (long)n), c = f2.one(); for (size_t i = 0; i < n; i++) { g.push_back(c); c = f2.mul(c, base); } tab[n] = g; }
    const V &g = tab[n];
    return vmap(a, [&](const ME &x, size_t i) { return f2.mul(ME{x[0], M.mod(-x[1])}, g[i]); });
}
static V conj12(const V &a) { return vmap(a, [&](const ME &x, size_t i) { return i & 1 ? f2.neg(x) : x; }); }
static V scale(const V &a, const ME &s) { return vmap(a, [&](const ME &x, size_t) { return f2.mul(x, s); }); }
static V mulTauM(const V &a) { V t(3, f2.zero()); t[1] = f2.one(); return vmul(a, t); }

static void put(E6 &e, const V &v) { ::put(e.z, v[0]); ::put(e.y, v[1]); ::put(e.x, v[2]); }
static void put(E12 &e, const V &v) { put(e.y, V{v[0], v[2], v[4]}); put(e.x, V{v[1], v[3], v[5]}); }
static V get(const E6 &e) { return {::get(e.z), ::get(e.y), ::get(e.x)}; }
static V get(const E12 &e) { V x = get(e.x), y = get(e.y); return {y[0], x[0], y[1], x[1], y[2], x[2]}; }
static std::string show(const V &v) { std::string s = "["; for (auto &c : v) s += (s.size() > 1 ? " " : "") + showE(f2, c); return s + "]"; }
static bool isZ(const V &v) { for (auto &c : v) if (!f2.isZero(c)) return false; return true; }
static bool boring(const V &v) { return isZ(v) || v == vconst(v.size(), 1); }

static V genV(pbt::Tape &t, size_t n) {
    V r(n, f2.zero());
    switch (t.weighted({2, 3, 5})) {
    case 0: r[0] = genME(t, f2); break;                                              // in the base field
    case 1: for (auto &c : r) if (t.coin()) c = genME(t, f2); break;                 // sparse
    default: for (auto &c : r) c = genME(t, f2); break;
    }
    if (n == 6 && t.coin(1, 8)) for (size_t i = 1; i < n; i += 2) r[i] = f2.zero();  // in F6
    return r;
}
static V genV2(pbt::Tape &t, const V &o) {
    switch (t.weighted({8, 1, 1, 1, 1})) {
    case 0: return genV(t, o.size());
    case 1: return o;
    case 2: return vneg(o);
    case 3: return o.size() == 6 ? conj12(o) : frob(o);
    default: { V r = o; size_t i = t.below(r.size()); r[i] = f2.add(r[i], f2.one()); return r; }
    }
}

template <class E, class L> struct Op { const char *name; int arity; bool divides; std::function<void(L &, E &, E &, E &)> f; std::function<V(const V &, const V &)> m; };

template <class E, class L> static void oneOp(pbt::Tape &t, const Op<E, L> &op, size_t n, const char *fld) {
    L &lib = field((L *)nullptr);
    E s[3]; V v[2];
    junk(s, sizeof s, t.below(1000));
    size_t ib = t.coin(1, 4) ? 0 : 1;
    static const size_t where[] = {2, 0, 1};
    size_t ir = where[t.weighted({3, 2, (unsigned)(op.arity == 2 ? 2 : 0)})];
    v[0] = genV(t, n); v[1] = genV2(t, v[0]);
    const V &a = v[0], &b = v[ib];
    if (op.divides && isZ(op.arity == 2 ? b : a)) throw pbt::Discard();
    put(s[0], v[0]); put(s[1], v[1]);
    E before[3]; memcpy(before, s, sizeof s);
    t.label("%s %s", fld, op.name);
    t.note("%s %s a %s b %s%s", fld, op.name, show(a).c_str(), op.arity == 2 ? show(b).c_str() : "-", ir == 2 ? "" : " in place");
    if (!boring(a) && (op.arity == 1 || !boring(b))) t.nontrivial();
    op.f(lib, s[ir], s[0], s[ib]);
    V got = get(s[ir]);
    if (op.divides) {
        const V &d = op.arity == 2 ? b : a; V num = op.arity == 2 ? a : vconst(n, 1);
        PBT_CHECK(vmul(got, d) == num, "%s %s gives %s, whose product with the divisor is not the dividend", fld, op.name, show(got).c_str());
    } else { V want = op.m(a, b); PBT_CHECK(got == want, "%s %s is %s, expected %s", fld, op.name, show(got).c_str(), show(want).c_str()); }
    for (size_t i = 0; i < 3; i++) if (i != ir) PBT_CHECK(!memcmp(&before[i], &s[i], sizeof(E)), "%s %s changed an operand", fld, op.name);
}
#define OPS(E, L) \
    {"add", 2, false, [](L &F, E &r, E &a, E &b) { F.add(r, a, b); }, vadd}, {"sub", 2, false, [](L &F, E &r, E &a, E &b) { F.sub(r, a, b); }, vsub}, \
    {"mul", 2, false, [](L &F, E &r, E &a, E &b) { F.mul(r, a, b); }, vmul}, {"square", 1, false, [](L &F, E &r, E &a, E &) { F.square(r, a); }, [](const V &a, const V &) { return vmul(a, a); }}, \
    {"neg", 1, false, [](L &F, E &r, E &a, E &) { F.neg(r, a); }, [](const V &a, const V &) { return vneg(a); }}, {"copy", 1, false, [](L &F, E &r, E &a, E &) { F.copy(r, a); }, [](const V &a, const V &) { return a; }}, \
    {"inv", 1, true, [](L &F, E &r, E &a, E &) { F.inv(r, a); }, nullptr}, {"div", 2, true, [](L &F, E &r, E &a, E &b) { F.div(r, a, b); }, nullptr}, \
    {"Frobenius", 1, false, [](L &F, E &r, E &a, E &) { F.Frobenius(r, a); }, [](const V &a, const V &) { return frob(a); }}, \
    {"FrobeniusP2", 1, false, [](L &F, E &r, E &a, E &) { F.FrobeniusP2(r, a); }, [](const V &a, const V &) { return frob(frob(a)); }}

static std::vector<Op<E6, L6>> ops6() {
    return {OPS(E6, L6),
        {"dbl", 1, false, [](L6 &F, E6 &r, E6 &a, E6 &) { F.dbl(r, a); }, [](const V &a, const V &) { return vadd(a, a); }},
        {"mulTau", 1, false, [](L6 &F, E6 &r, E6 &a, E6 &) { F.mulTau(r, a); }, [](const V &a, const V &) { return mulTauM(a); }},
        {"mulScalar", 2, false, [](L6 &F, E6 &r, E6 &a, E6 &b) { E2 s = b.z; F.mulScalar(r, a, s); }, [](const V &a, const V &b) { return scale(a, b[0]); }},
        {"mulGFP", 2, false, [](L6 &F, E6 &r, E6 &a, E6 &b) { E1 s = b.z.a; F.mulGFP(r, a, s); }, [](const V &a, const V &b) { return scale(a, ME{b[0][0], Z(0)}); }}};
}
static std::vector<Op<E12, L12>> ops12() {
    return {OPS(E12, L12),
        {"conjugate", 1, false, [](L12 &F, E12 &r, E12 &a, E12 &) { F.conjugate(r, a); }, [](const V &a, const V &) { return conj12(a); }},
        {"mulScalar", 2, false, [](L12 &F, E12 &r, E12 &a, E12 &b) { E6 s = b.y; F.mulScalar(r, a, s); }, [](const V &a, const V &b) { return vmul(a, V{b[0], f2.zero(), b[2], f2.zero(), b[4], f2.zero()}); }}};
}
template <class E, class L> static void predicates(pbt::Tape &t, size_t n, const char *fld) {
    L &lib = field((L *)nullptr);
    V a = genV(t, n), b = t.coin(1, 3) ? a : genV2(t, a);
    if (t.coin(1, 4)) a = vconst(n, t.range(-1, 1));
    if (t.coin(1, 4)) { a = vconst(n, t.range(0, 1)); size_t i = t.below(n); a[i][t.below(2)] = (long)t.below(3); }
    E x, y; put(x, a); put(y, b);
    t.label("%s predicates", fld); t.note("%s predicates a %s b %s", fld, show(a).c_str(), show(b).c_str());
    if (!boring(a)) t.nontrivial();
    PBT_CHECK(lib.eq(x, y) == (a == b), "%s eq is %d", fld, lib.eq(x, y));
    PBT_CHECK(lib.eq(x, x), "%s eq of an element with itself is false", fld);
    PBT_CHECK(lib.isZero(x) == isZ(a), "%s isZero is %d", fld, lib.isZero(x));
    PBT_CHECK(lib.isOne(x) == (a == vconst(n, 1)), "%s isOne is %d", fld, lib.isOne(x));
    PBT_CHECK(get(lib.zero()) == vconst(n, 0) && get(lib.one()) == vconst(n, 1) && get(lib.negOne()) == vconst(n, -1), "a constant of %s is wrong", fld);
}
static std::string text6(const V &v, int radix) { auto e = [&](const ME &c) { return "(" + c[0].get_str(radix) + "," + c[1].get_str(radix) + ")"; }; return "(" + e(v[2]) + "," + e(v[1]) + "," + e(v[0]) + ")"; }
static std::string textOf(const V &v, int radix) { return v.size() == 3 ? text6(v, radix) : "(" + text6(V{v[1], v[3], v[5]}, radix) + "," + text6(V{v[0], v[2], v[4]}, radix) + ")"; }
template <class E, class L> static void text(pbt::Tape &t, size_t n, const char *fld) {
    L &lib = field((L *)nullptr);
    V a = genV(t, n); E x, y; put(x, a); junk(&y, sizeof y, t.below(1000));
    int radix = t.coin(2, 3) ? 10 : 2 + (int)t.below(35);
    std::string s = lib.toString(x, radix);
    t.label("%s text", fld); t.note("%s text of %s in radix %d", fld, show(a).c_str(), radix);
    if (!boring(a)) t.nontrivial();
    PBT_CHECK(s == textOf(a, radix), "%s toString in radix %d gives %s, expected %s", fld, radix, s.c_str(), textOf(a, radix).c_str());
    std::string in;
    for (char c : lib.toString(x)) { if (t.coin(1, 12)) in += ' '; in += c; }
    lib.fromString(y, in);
    PBT_CHECK(get(y) == a, "%s fromString(%s) is %s", fld, in.c_str(), show(get(y)).c_str());
}
static void power(pbt::Tape &t) {
    L12 &lib = field((L12 *)nullptr);
    V a = genV(t, 6); E12 s[2]; junk(s, sizeof s, t.below(1000)); put(s[0], a);
    size_t n = t.coin(1, 12) ? 0 : 1 + t.below(t.coin(1, 50) ? 300 : 40);
    std::vector<uint8_t> e = n ? genScalar(t, n) : std::vector<uint8_t>();
    Guarded g(n, t.coin(3, 4)); if (n) memcpy(g.p, e.data(), n); g.protect();
    bool inPlace = t.coin(1, 3);
    t.label("F12 exp%s", inPlace ? " in place" : ""); t.note("F12 exp of %s by %s%s", show(a).c_str(), showS(e).c_str(), inPlace ? " in place" : "");
    if (!boring(a) && scalarZ(e.data(), n) > 1) t.nontrivial();
    lib.exp(s[inPlace ? 0 : 1], s[0], g.p, (unsigned)n);
    V want = vpow(a, scalarZ(e.data(), n)), got = get(s[inPlace ? 0 : 1]);
    PBT_CHECK(got == want, "F12 exp is %s, expected %s", show(got).c_str(), show(want).c_str());
    if (!inPlace) PBT_CHECK(get(s[0]) == a, "F12 exp changed its base");
}
// the Frobenius map is the p-th power (this also checks the model's own formula)
static void frobPower(pbt::Tape &t) {
    L6 &l6 = field((L6 *)nullptr); L12 &l12 = field((L12 *)nullptr);
    bool big = t.coin(); V a = genV(t, big ? 6 : 3), want = vpow(a, M.q), got, got2;
    if (big) { E12 x, r; put(x, a); l12.Frobenius(r, x); got = get(r); l12.FrobeniusP2(r, x); got2 = get(r); } else { E6 x, r; put(x, a); l6.Frobenius(r, x); got = get(r); l6.FrobeniusP2(r, x); got2 = get(r); }
    t.label("p-th power"); t.note("p-th power of %s", show(a).c_str());
    if (!boring(a)) t.nontrivial();
    PBT_CHECK(got == want, "Frobenius is %s, the p-th power is %s", show(got).c_str(), show(want).c_str());
    PBT_CHECK(got2 == vpow(want, M.q), "FrobeniusP2 is %s, not the p^2-th power", show(got2).c_str());
}
int main(int argc, char **argv) {
    static auto o6 = ops6(); static auto o12 = ops12();
    for (auto &op : o6) pbt::addProp(std::string(PROP "F6 ") + op.name, 2, [&op](pbt::Tape &t) { oneOp<E6, L6>(t, op, 3, "F6"); });
    for (auto &op : o12) pbt::addProp(std::string(PROP "F12 ") + op.name, 2, [&op](pbt::Tape &t) { oneOp<E12, L12>(t, op, 6, "F12"); });
    pbt::addProp(PROP "predicates", 2, [](pbt::Tape &t) { predicates<E6, L6>(t, 3, "F6"); });
    pbt::addProp(PROP "predicates12", 2, [](pbt::Tape &t) { predicates<E12, L12>(t, 6, "F12"); });
    pbt::addProp(PROP "text", 2, [](pbt::Tape &t) { text<E6, L6>(t, 3, "F6"); });
    pbt::addProp(PROP "text12", 2, [](pbt::Tape &t) { text<E12, L12>(t, 6, "F12"); });
    pbt::addProp(PROP "exp", 4, power);
    pbt::addProp(PROP "p-power", 4, frobPower);
    return pbt::mainDriver(argc, argv);
}
