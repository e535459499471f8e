PROPERTY='C13'
NEEDS='a square of the quadratic extension with constant -1 stored over its operand'
BREAKS='the product of the two components is formed after the first one has been replaced'
EDITS=[('c/f2field.cpp', '    if (typeOfNr == nr_is_negone) {\n        F.mul(ab, e1.a, e1.b);\n\n        F.add(tmp1, e1.a, e1.b);\n        F.sub(tmp2, e1.a, e1.b);\n\n        F.mul(r.a, tmp1, tmp2);\n', '    if (typeOfNr == nr_is_negone) {\n        F.add(tmp1, e1.a, e1.b);\n        F.sub(tmp2, e1.a, e1.b);\n\n        F.mul(r.a, tmp1, tmp2);\n        F.mul(ab, e1.a, e1.b);\n')]
FILES={'demo.cpp':r'''
#include "demo.h"
#include "f2field.hpp"
int main() {
    F2Field<RawFr> F(std::string("-1")); F2Field<RawFr>::Element a, r;
    F.fromString(a, "(123456789,987654321)"); F.mul(r, a, a); std::string want = F.toString(r);
    F.square(r, a); ok("square", F.toString(r) == want);
    F.square(a, a); ok("square in place", F.toString(a) == want);
    return bad;
}
'''}
DEMO='''gen $BN_Q Fr
build_gen "$HERE/demo.cpp" "$REPO/c/splitparstr.cpp"
"$W/demo"
'''
