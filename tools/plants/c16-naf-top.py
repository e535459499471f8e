PROPERTY="C16"
NEEDS="a scalar whose top two bits are set, so that its non-adjacent form carries one digit beyond its bits"
BREAKS="multiplication starts at the highest bit of the scalar and drops the carried digit"
EDITS=[("c/exp.hpp","    int nBits = (scalarSize*8)+2;","    int nBits = (scalarSize*8);")]
FILES={"demo.cpp":r'''
#include "demo.h"
#include "curve.hpp"
int main() {
    RawFr F; Curve<RawFr> E(F, "0", "3", "1", "2"); Curve<RawFr>::Point r, w;
    E.copy(w, E.zero());
    for (int k = 0; k < 256; k++) {
        uint8_t s[1] = {(uint8_t)k};
        E.mulByScalar(r, E.one(), s, 1); ok("multiple", E.eq(r, w));
        E.add(w, w, E.one());
    }
    return bad;
}
'''}
DEMO='''gen $BN_Q Fr
build_gen "$HERE/demo.cpp" "$REPO/c/naf.cpp" "$REPO/c/misc.cpp" "$REPO/c/splitparstr.cpp"
"$W/demo"
'''
