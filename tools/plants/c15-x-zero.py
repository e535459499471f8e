PROPERTY="C15"
NEEDS="a curve with a point whose x coordinate is 0, in affine form"
BREAKS="an affine point is taken for the identity when its x coordinate alone is zero"
EDITS=[("c/curve.cpp","    return F.isZero(p1.x) && F.isZero(p1.y);","    return F.isZero(p1.x);")]
FILES={"demo.cpp":r'''
#include "demo.h"
#include "curve.hpp"
int main() {
    RawFr F; Curve<RawFr> E(F, "0", "4", "0", "2"); // (0,2) has order 3
    Curve<RawFr>::Point p, r; Curve<RawFr>::PointAffine a, z;
    E.copy(a, E.oneAffine()); E.copy(p, E.one());
    ok("not the identity", !E.isZero(a));
    E.dbl(r, a); ok("2P = -P", E.toString(r) == "(0," + Z(modulus() - 2).get_str() + ")");
    E.add(r, r, a); ok("3P = 0", E.isZero(r));
    E.add(r, E.zero(), a); ok("0 + P = P", E.eq(r, p));
    return bad;
}
'''}
DEMO='''gen $BN_Q Fr
build_gen "$HERE/demo.cpp" "$REPO/c/naf.cpp" "$REPO/c/misc.cpp" "$REPO/c/splitparstr.cpp"
"$W/demo"
'''
