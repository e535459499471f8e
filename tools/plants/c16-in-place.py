PROPERTY='C16'
NEEDS='a multiple of a projective point stored over the point itself'
BREAKS='the base is no longer copied, and it is set to zero when the result is'
EDITS=[('c/exp.hpp', '    BaseGroupElementIn baseCopy;\n', '    BaseGroupElementIn &baseCopy = base;\n'), ('c/exp.hpp', '    G.copy(baseCopy, base); // base and result can be the same\n', '')]
FILES={'demo.cpp':r'''
#include "demo.h"
#include "curve.hpp"
int main() {
    RawFr F; Curve<RawFr> E(F, "0", "3", "1", "2"); Curve<RawFr>::Point p, r; uint8_t s[2] = {0x39, 0x30};
    E.dbl(p, E.one()); E.mulByScalar(r, p, s, 2); std::string want = E.toString(r);
    E.mulByScalar(p, p, s, 2); ok("in place", E.toString(p) == want && !E.isZero(p));
    return bad;
}
'''}
DEMO='''gen $BN_Q Fr
build_gen "$HERE/demo.cpp" "$REPO/c/naf.cpp" "$REPO/c/misc.cpp" "$REPO/c/splitparstr.cpp"
"$W/demo"
'''
