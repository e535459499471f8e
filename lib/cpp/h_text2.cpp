// C23: texts of extension elements and points, decorated with white space and extra parentheses.
#define main tower_main
#include "h_tower.cpp"
#undef main
struct Deco {
    pbt::Tape &t;
    std::string ws() { std::string s; while (t.coin(1, 4)) s += " \t\n\r"[t.below(4)]; return s; }
    std::string wrap(std::string s, size_t least) { size_t n = least; while (n < 5 && t.coin(1, 4)) n++; std::string a, b; while (n--) { a += ws() + "("; b += ")" + ws(); } return a + ws() + s + ws() + b; }
    std::string num(const Z &v) { Z x = v; if (t.coin(1, 5)) x += t.coin() ? M.q : Z(-M.q); return wrap(x.get_str(), 0); }
    std::string e2(const ME &a, size_t least) { return wrap(num(a[0]) + "," + num(a[1]), least); }
    std::string e6(const V &v, size_t least) { return wrap(e2(v[2], 1) + "," + e2(v[1], 1) + "," + e2(v[0], 1), least); }
    std::string e12(const V &v, size_t least) { return wrap(e6(V{v[1], v[3], v[5]}, 1) + "," + e6(V{v[0], v[2], v[4]}, 1), least); }
};
static void parse(pbt::Tape &t) {
    Deco d{t}; static L6 l6; static L12 l12; static std::unique_ptr<Ext2> l2(new Ext2(std::string("-1")));
    switch (t.below(3)) {
    case 0: { ME a = genME(t, f2); std::string s = d.e2(a, 0); E2 x; junk(&x, sizeof x, t.below(1000)); t.label("F2"); t.note("F2 %s", pbt::jsonEsc(s).c_str()); if (a != f2.zero()) t.nontrivial();
        l2->fromString(x, s); PBT_CHECK(::get(x) == a, "read as %s, expected %s", showE(f2, ::get(x)).c_str(), showE(f2, a).c_str());
        E2 y; l2->fromString(y, l2->toString(x)); PBT_CHECK(::get(y) == a, "the text written is not read back"); break; }
    case 1: { V a = genV(t, 3); std::string s = d.e6(a, 0); E6 x; junk(&x, sizeof x, t.below(1000)); t.label("F6"); t.note("F6 %s", pbt::jsonEsc(s).c_str()); if (!isZ(a)) t.nontrivial();
        l6.fromString(x, s); PBT_CHECK(get(x) == a, "read as %s, expected %s", show(get(x)).c_str(), show(a).c_str());
        E6 y; l6.fromString(y, l6.toString(x)); PBT_CHECK(get(y) == a, "the text written is not read back"); break; }
    default: { V a = genV(t, 6); std::string s = d.e12(a, 0); E12 x; junk(&x, sizeof x, t.below(1000)); t.label("F12"); t.note("F12 %s", pbt::jsonEsc(s).c_str()); if (!isZ(a)) t.nontrivial();
        l12.fromString(x, s); PBT_CHECK(get(x) == a, "read as %s, expected %s", show(get(x)).c_str(), show(a).c_str());
        E12 y; l12.fromString(y, l12.toString(x)); PBT_CHECK(get(y) == a, "the text written is not read back"); break; }
    }
}
// a curve made from texts, and the text of its points
static void curve(pbt::Tape &t) {
    Deco d{t}; static Ext2 F(std::string("-1")); typedef Curve<Ext2> C;
    CurveCase k = genCurve(t, f2);
    std::string s[4] = {d.e2(k.c.a, 0), d.e2(k.c.b, 0), d.e2(k.g.x, 0), d.e2(k.g.y, 0)};
    t.label("curve"); t.note("curve %s, %s, %s, %s", pbt::jsonEsc(s[0]).c_str(), pbt::jsonEsc(s[1]).c_str(), pbt::jsonEsc(s[2]).c_str(), pbt::jsonEsc(s[3]).c_str()); t.nontrivial();
    C c(F, s[0], s[1], s[2], s[3]);
    PBT_CHECK(::get(c.a()) == k.c.a && ::get(c.b()) == k.c.b, "a coefficient is read wrongly");
    PBT_CHECK(k.c.eq(getP(c.one(), f2), k.g) && k.c.eq(getA(c.oneAffine(), f2), k.g), "the generator is read wrongly");
    MP p = k.c.mul(k.g, Z((long)t.range(0, 30)));
    C::Point x; ME l = genME(t, f2); if (!f2.invertible(l)) l = f2.one(); putP(x, p, f2, l);
    std::vector<std::string> v = splitParStr(c.toString(x));
    PBT_CHECK(v.size() == 2, "the text of a point has %zu components", v.size());
    E2 a, b; F.fromString(a, v[0]); F.fromString(b, v[1]);
    PBT_CHECK(p.inf ? f2.isZero(::get(a)) && f2.isZero(::get(b)) : ::get(a) == p.x && ::get(b) == p.y, "the text of %s reads as (%s, %s)", showP(k.c, p).c_str(), showE(f2, ::get(a)).c_str(), showE(f2, ::get(b)).c_str());
}
int main(int argc, char **argv) {
    pbt::addProp("C23/parse", 6, parse, 30);
    pbt::addProp("C23/curve", 2, curve, 30);
    return pbt::mainDriver(argc, argv);
}
