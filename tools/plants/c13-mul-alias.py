PROPERTY="C13"
NEEDS="a product of the quadratic extension stored over one of its factors"
BREAKS="the first component of the result is written before the sums of the factors' components are formed"
EDITS=[("c/f2field.cpp","""    typename BaseField::Element sum1, sum2;
    F.add(sum1, e1.a, e1.b);
    F.add(sum2, e2.a, e2.b);

    F.add(r.a, aa, bbr);
""","""    typename BaseField::Element sum1, sum2;
    F.add(sum1, e1.a, e1.b);
    F.add(r.a, aa, bbr);
    F.add(sum2, e2.a, e2.b);
""")]
FILES={"demo.cpp":r'''
#include "demo.h"
#include "f2field.hpp"
int main() {
    F2Field<RawFr> F(std::string("-1"));
    F2Field<RawFr>::Element a, b, r;
    F.fromString(a, "(123456789,987654321)"); F.fromString(b, "(1111111,2222222)");
    F.mul(r, a, b); std::string want = F.toString(r);
    F.copy(r, a); F.mul(r, r, b); ok("a = a * b", F.toString(r) == want);
    F.copy(r, b); F.mul(r, a, r); ok("b = a * b", F.toString(r) == want);
    return bad;
}
'''}
DEMO='''gen $BN_Q Fr
build_gen "$HERE/demo.cpp" "$REPO/c/splitparstr.cpp"
"$W/demo"
'''
