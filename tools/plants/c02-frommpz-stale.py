PROPERTY="C02"
NEEDS="a result object that held a long value, and a quotient, remainder, power or inverse whose value does not fit an int but has fewer words than the field"
BREAKS="fromMpz leaves the words above the exported value as they were, so mod, idiv, pow and inv return a wrong, possibly unreduced element"
EDITS=[("src/fr.cpp.ejs","""        pE->type = <%=name%>_LONG;
        for (int i=0; i<<%=name%>_N64; i++) pE->longVal[i] = 0;
        mpz_export""","""        if (!(pE->type & <%=name%>_LONG)) {
            for (int i=0; i<<%=name%>_N64; i++) pE->longVal[i] = 0;
        }
        pE->type = <%=name%>_LONG;
        mpz_export""")]
FILES={"demo.cpp":r'''
#include "demo.h"
int main() {
    Z q = modulus(), big = q - 12345678901234567_mpz, m("1000000000000000003");
    FrElement a = L(big), b = L(m), r = L(big);
    Fr_mod(&r, &a, &b); is("mod into a used element", val(r), big % m);
    r = LM(big); Fr_mod(&r, &a, &b); is("mod into a used element", val(r), big % m);
    r = S(0); Fr_mod(&r, &a, &b); is("mod into a fresh element", val(r), big % m);
    return bad;
}
'''}
DEMO='''gen $BN_R Fr
build_asm "$HERE/demo.cpp"
"$W/demo" && build_gen "$HERE/demo.cpp" && "$W/demo"
'''
