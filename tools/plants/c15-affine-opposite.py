PROPERTY='C15'
NEEDS='the sum of two affine points that are opposite'
BREAKS='equal x alone is taken for equal points, so the sum is twice the second'
EDITS=[('c/curve.cpp', """    // R = Y2-Y1
    typename BaseField::Element R;
    F.sub(R, p2.y, p1.y);

    if (F.isZero(P) && F.isZero(R)) return dbl(p3, p2);""", """    // R = Y2-Y1
    typename BaseField::Element R;
    F.sub(R, p2.y, p1.y);

    if (F.isZero(P)) return dbl(p3, p2);""")]
FILES={'demo.cpp':r'''
#include "demo.h"
#include "curve.hpp"
int main() {
    RawFr F; Curve<RawFr> E(F, "0", "3", "1", "2"); Curve<RawFr>::Point r, d; Curve<RawFr>::PointAffine n;
    E.neg(n, E.oneAffine());
    E.add(r, E.one(), n); ok("mixed", E.isZero(r));
    E.add(r, E.oneAffine(), n); ok("affine", E.isZero(r));
    E.dbl(d, E.one()); E.add(r, E.oneAffine(), E.oneAffine()); ok("equal", E.eq(r, d));
    return bad;
}
'''}
DEMO='''gen $BN_Q Fr
build_gen "$HERE/demo.cpp" "$REPO/c/naf.cpp" "$REPO/c/misc.cpp" "$REPO/c/splitparstr.cpp"
"$W/demo"
'''
