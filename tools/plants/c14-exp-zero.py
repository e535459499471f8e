PROPERTY="C14"
NEEDS="F12 raised to a scalar all of whose bytes are zero"
BREAKS="leading zero bits are skipped and the result is set at the first one bit, so the zeroth power leaves the result as it was"
EDITS=[("c/f12field.cpp","""    copy(r, one());

    for (int i=scalarSize*8-1; i>=0; i--) {
        square(t, r);
""","""    int top = scalarSize*8-1;
    while (top >= 0 && !BIT_IS_SET(scalar, top)) top--;
    if (top >= 0) copy(r, one());

    for (int i=top; i>=0; i--) {
        square(t, r);
""")]
FILES={"demo.cpp":r'''
#include "demo.h"
#include "f2field.hpp"
#include "f6field.hpp"
#include "f12field.hpp"
typedef F12Field<F6Field<F2Field<RawFr>>> F12;
int main() {
    F12 F; F12::Element a, r, m;
    F.fromString(a, "(((1,2),(3,4),(5,6)),((7,8),(9,10),(11,12)))");
    F.copy(m, F.one());
    for (int k = 0; k < 20; k++) {
        uint8_t s[3] = {(uint8_t)k, 0, 0};
        F.copy(r, a); F.exp(r, a, s, 3); ok("power", F.eq(r, m));
        F.mul(m, m, a);
    }
    return bad;
}
'''}
DEMO='''gen $BN_Q Fr
build_gen "$HERE/demo.cpp" "$REPO/c/splitparstr.cpp"
"$W/demo"
'''
