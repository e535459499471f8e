PROPERTY="C05"
NEEDS="the decimal text of the prime itself (or of a negative multiple beyond -q)"
BREAKS="str2element reduces only texts above the prime, so the text of the prime gives an unreduced element that prints as the prime and counts as true"
EDITS=[("src/fr.cpp.ejs","""    mpz_init_set_str(mr, s, 10);
    mpz_fdiv_r(mr, mr, q);
    <%=name%>_fromMpz(pE, mr);""","""    mpz_init_set_str(mr, s, 10);
    if (mpz_sgn(mr) < 0 || mpz_cmp(mr, q) > 0) mpz_fdiv_r(mr, mr, q);
    <%=name%>_fromMpz(pE, mr);""")]
FILES={"demo.cpp":r'''
#include "demo.h"
int main() {
    Z q = modulus();
    for (Z v : {q, Z(q - 1), Z(q + 1), Z(2 * q), Z(-q), Z(-1), Z(5)}) {
        FrElement e; Fr_str2element(&e, v.get_str().c_str());
        char *s = Fr_element2str(&e); is("text", Z(s), red(v)); free(s);
        is("truth", Fr_isTrue(&e) ? 1 : 0, red(v) != 0 ? 1 : 0);
    }
    return bad;
}
'''}
DEMO='''gen $BN_R Fr
build_asm "$HERE/demo.cpp"
"$W/demo" && build_gen "$HERE/demo.cpp" && "$W/demo"
'''
