PROPERTY='C14'
NEEDS='a quotient of the twelfth-degree field stored over its dividend'
BREAKS='the inverse of the divisor is put into the result first, where the dividend was'
EDITS=[('c/f12field.cpp', '    Element tmp;\n    inv(tmp, b);\n    mul(r, a, tmp);', '    inv(r, b);\n    mul(r, a, r);')]
FILES={'demo.cpp':r'''
#include "demo.h"
#include "f2field.hpp"
#include "f6field.hpp"
#include "f12field.hpp"
typedef F12Field<F6Field<F2Field<RawFr>>> F12;
int main() {
    F12 F; F12::Element a, b, r, c;
    F.fromString(a, "(((1,2),(3,4),(5,6)),((7,8),(9,10),(11,12)))"); F.fromString(b, "(((31,2),(3,94),(5,6)),((7,18),(9,10),(11,1)))");
    F.mul(c, a, b);
    F.div(r, c, b); ok("quotient", F.eq(r, a));
    F.copy(r, b); F.div(r, c, r); ok("over the divisor", F.eq(r, a));
    F.copy(r, c); F.div(r, r, b); ok("over the dividend", F.eq(r, a));
    return bad;
}
'''}
DEMO='''gen $BN_Q Fr
build_gen "$HERE/demo.cpp" "$REPO/c/splitparstr.cpp"
"$W/demo"
'''
