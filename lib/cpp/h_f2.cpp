// C13: the quadratic extension.
#include "ext.hpp"

struct Op2 { const char *name; int arity; std::function<void(Ext2 &, E2 &, E2 &, E2 &)> f; std::function<bool(const MField &, const ME &, const ME &)> dom; std::function<ME(const MField &, const ME &, const ME &)> m; };
static const auto any2 = [](const MField &, const ME &, const ME &) { return true; };
static std::vector<Op2> ops() {
    return {
        {"add", 2, [](Ext2 &F, E2 &r, E2 &a, E2 &b) { F.add(r, a, b); }, any2, [](const MField &f, const ME &a, const ME &b) { return f.add(a, b); }},
        {"sub", 2, [](Ext2 &F, E2 &r, E2 &a, E2 &b) { F.sub(r, a, b); }, any2, [](const MField &f, const ME &a, const ME &b) { return f.sub(a, b); }},
        {"mul", 2, [](Ext2 &F, E2 &r, E2 &a, E2 &b) { F.mul(r, a, b); }, any2, [](const MField &f, const ME &a, const ME &b) { return f.mul(a, b); }},
        {"div", 2, [](Ext2 &F, E2 &r, E2 &a, E2 &b) { F.div(r, a, b); }, [](const MField &f, const ME &, const ME &b) { return f.invertible(b); }, [](const MField &f, const ME &a, const ME &b) { return f.div(a, b); }},
        {"mulScalar", 2, [](Ext2 &F, E2 &r, E2 &a, E2 &b) { E1 s = b.a; F.mulScalar(r, a, s); }, any2, [](const MField &f, const ME &a, const ME &b) { return ME{M.mod(a[0] * b[0]), M.mod(a[1] * b[0])}; }},
        {"square", 1, [](Ext2 &F, E2 &r, E2 &a, E2 &) { F.square(r, a); }, any2, [](const MField &f, const ME &a, const ME &) { return f.sq(a); }},
        {"inv", 1, [](Ext2 &F, E2 &r, E2 &a, E2 &) { F.inv(r, a); }, [](const MField &f, const ME &a, const ME &) { return f.invertible(a); }, [](const MField &f, const ME &a, const ME &) { return f.inv(a); }},
        {"neg", 1, [](Ext2 &F, E2 &r, E2 &a, E2 &) { F.neg(r, a); }, any2, [](const MField &f, const ME &a, const ME &) { return f.neg(a); }},
        {"dbl", 1, [](Ext2 &F, E2 &r, E2 &a, E2 &) { F.dbl(r, a); }, any2, [](const MField &f, const ME &a, const ME &) { return f.add(a, a); }},
        {"conjugate", 1, [](Ext2 &F, E2 &r, E2 &a, E2 &) { F.conjugate(r, a); }, any2, [](const MField &f, const ME &a, const ME &) { return ME{a[0], M.mod(-a[1])}; }},
        {"copy", 1, [](Ext2 &F, E2 &r, E2 &a, E2 &) { F.copy(r, a); }, any2, [](const MField &f, const ME &a, const ME &) { return a; }},
        // the multiplication by 9 + u that the tower for pairings is built on (u^2 = -1)
        {"mulXi", 1, [](Ext2 &F, E2 &r, E2 &a, E2 &) { F.mulXi(r, a); }, [](const MField &f, const ME &, const ME &) { return f.nr == M.q - 1; }, [](const MField &f, const ME &a, const ME &) { return f.mul(a, ME{Z(9), Z(1)}); }}};
}
static bool boring(const ME &a) { return a[1] == 0 && a[0] < 2; }
static std::unique_ptr<Ext2> make(pbt::Tape &t, const Z &nr) {
    if (t.coin()) { E1 e; put(e, nr); return std::unique_ptr<Ext2>(new Ext2(e)); }
    Z v = nr; if (t.coin()) v = nr - M.q;                     // "-1" and "q-1" are the same non-residue
    return std::unique_ptr<Ext2>(new Ext2(v.get_str()));
}
static void oneOp(pbt::Tape &t, const Op2 &op) {
    Z nr = op.name[4] == 'i' && op.name[3] == 'X' ? Z(M.q - 1) : genNr(t);
    MField f(2, nr);
    auto F = make(t, nr);
    E2 s[3]; ME v[3];
    junk(s, sizeof s, t.below(1000));
    size_t ia = 0, ib = t.coin(1, 4) ? 0 : 1, ir = op.arity == 2 ? t.weighted({3, 2, 2}) : t.weighted({2, 2}) ;
    static const size_t where[] = {2, 0, 1};
    ir = where[ir];
    v[0] = genME(t, f); v[1] = genME2(t, f, v[0]);
    if (!op.dom(f, v[ia], v[ib])) throw pbt::Discard();
    put(s[0], v[0]); put(s[1], v[1]);
    E2 before[3]; memcpy(before, s, sizeof s);
    t.label("%s %s", op.name, nr == M.q - 1 ? "nr=-1" : nr < 2 ? "nr=0,1" : "other nr");
    t.note("%s nr %s a %s b %s%s%s", op.name, fm::hex(nr).c_str(), showE(f, v[ia]).c_str(), op.arity == 2 ? showE(f, v[ib]).c_str() : "-", ir == 2 ? "" : " in place", ib == ia && op.arity == 2 ? " a and b the same object" : "");
    if (!boring(v[ia]) && (op.arity == 1 || !boring(v[ib]))) t.nontrivial();
    op.f(*F, s[ir], s[ia], s[ib]);
    ME want = op.m(f, v[ia], v[ib]), got = get(s[ir]);
    PBT_CHECK(got == want, "F2 %s is %s, expected %s", op.name, showE(f, got).c_str(), showE(f, want).c_str());
    for (size_t i = 0; i < 3; i++) if (i != ir) PBT_CHECK(!memcmp(&before[i], &s[i], sizeof(E2)), "F2 %s changed an operand", op.name);
}
static void predicates(pbt::Tape &t) {
    Z nr = genNr(t); MField f(2, nr);
    auto F = make(t, nr);
    ME a = genME(t, f), b = t.coin(1, 3) ? a : t.coin() ? ME{a[0], M.mod(a[1] + 1)} : t.coin() ? ME{M.mod(a[0] + 1), a[1]} : genME2(t, f, a);
    if (t.coin(1, 4)) { a = t.coin() ? f.zero() : f.one(); }
    if (t.coin(1, 4)) { a = f.zero(); a[t.below(2)] = 1 + (long)t.below(3); }
    E2 x, y; put(x, a); put(y, b);
    t.label("predicates"); t.note("predicates a %s b %s", showE(f, a).c_str(), showE(f, b).c_str());
    if (!boring(a)) t.nontrivial();
    PBT_CHECK(F->eq(x, y) == (a == b), "F2 eq is %d", F->eq(x, y));
    PBT_CHECK(F->eq(x, x), "F2 eq of an element with itself is false");
    PBT_CHECK(F->isZero(x) == f.isZero(a), "F2 isZero is %d", F->isZero(x));
    PBT_CHECK(F->isOne(x) == (a == f.one()), "F2 isOne is %d", F->isOne(x));
    PBT_CHECK(get(F->zero()) == f.zero() && get(F->one()) == f.one() && get(F->negOne()) == f.neg(f.one()), "an F2 constant is wrong");
    PBT_CHECK(F->isZero(F->zero()) && F->isOne(F->one()), "F2 zero()/one() are not recognised as such");
}
static void text(pbt::Tape &t) {
    Z nr = genNr(t); MField f(2, nr);
    auto F = make(t, nr);
    ME a = genME(t, f); E2 x, y; put(x, a); junk(&y, sizeof y, t.below(1000));
    int radix = t.coin(2, 3) ? 10 : 2 + (int)t.below(35);
    std::string s = F->toString(x, radix), want = "(" + a[0].get_str(radix) + "," + a[1].get_str(radix) + ")";
    t.label("text"); t.note("text of %s in radix %d", showE(f, a).c_str(), radix);
    if (!boring(a)) t.nontrivial();
    PBT_CHECK(s == want, "F2 toString in radix %d gives %s, expected %s", radix, s.c_str(), want.c_str());
    PBT_CHECK(get(x) == a, "F2 toString changed its operand");
    std::string in = t.coin() ? F->toString(x) : F->toString(x).substr(1, F->toString(x).size() - 2);
    if (t.coin(1, 3)) { Z k = t.coin() ? M.q : Z(-M.q); in = "( " + Z(a[0] + k).get_str() + " ,\t" + a[1].get_str() + ")"; }
    F->fromString(y, in);
    PBT_CHECK(get(y) == a, "F2 fromString(%s) is %s", in.c_str(), showE(f, get(y)).c_str());
}
int main(int argc, char **argv) {
    static std::vector<Op2> o = ops();
    for (auto &op : o) pbt::addProp(std::string("C13/") + op.name, op.name == std::string("square") || op.name == std::string("mul") ? 4 : 2, [&op](pbt::Tape &t) { oneOp(t, op); });
    pbt::addProp("C13/predicates", 2, predicates);
    pbt::addProp("C13/text", 2, text);
    return pbt::mainDriver(argc, argv);
}
