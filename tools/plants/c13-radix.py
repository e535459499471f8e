PROPERTY='C13'
NEEDS='an element printed in a radix other than ten'
BREAKS='the second component is always printed in decimal'
EDITS=[("c/f2field.cpp",'F.toString(e.a, radix) << "," << F.toString(e.b, radix)','F.toString(e.a, radix) << "," << F.toString(e.b)')]
FILES={"demo.cpp":r'''
#include "demo.h"
#include "f2field.hpp"
int main() {
    F2Field<RawFr> F("-1"); F2Field<RawFr>::Element a; F.fromString(a, "255,254");
    ok("hex", F.toString(a, 16) == "(ff,fe)"); ok("dec", F.toString(a) == "(255,254)");
    return bad;
}
'''}
DEMO='''gen $BN_Q Fr
build_gen "$HERE/demo.cpp" "$REPO/c/splitparstr.cpp"
"$W/demo"
'''
