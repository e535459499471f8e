PROPERTY='C15'
NEEDS='a curve with a = 1 or a = -1 and the doubling of an affine point (or the sum of two equal ones)'
BREAKS='the affine doubling forgets the term of a unless a is a general constant'
EDITS=[('c/curve.cpp', '    F.add(M, M, fa);', '    if (typeOfA == a_is_long) F.add(M, M, fa);')]
FILES={'demo.cpp':r'''
#include "demo.h"
#include "curve.hpp"
int main() {
    for (int a : {0, 1, -1, 5}) {
        Z q = modulus(), x = 2, y = 3, b = red(y * y - x * x * x - a * x);
        RawFr F; Curve<RawFr> E(F, std::to_string(a), b.get_str(), "2", "3"); Curve<RawFr>::Point p, r;
        Z i; mpz_invert(i.get_mpz_t(), Z(2 * y).get_mpz_t(), q.get_mpz_t());
        Z m = red((3 * x * x + a) * i), rx = red(m * m - 2 * x), ry = red(m * (x - rx) - y);
        std::string want = "(" + rx.get_str() + "," + ry.get_str() + ")";
        E.dbl(r, E.one()); ok("projective", E.toString(r) == want);
        E.dbl(r, E.oneAffine()); ok("affine", E.toString(r) == want);
        E.add(r, E.oneAffine(), E.oneAffine()); ok("affine sum", E.toString(r) == want);
    }
    return bad;
}
'''}
DEMO='''gen $BN_Q Fr
build_gen "$HERE/demo.cpp" "$REPO/c/naf.cpp" "$REPO/c/misc.cpp" "$REPO/c/splitparstr.cpp"
"$W/demo"
'''
