PROPERTY="C06"
NEEDS="three operations: a short element brought to Montgomery form, negated, and the result used with a Montgomery operand (x86-64 assembly)"
BREAKS="the negation keeps the type word of the short Montgomery operand but writes only the short value, so the Montgomery words of the result are whatever was there"
EDITS=[("src/neg.asm.ejs","""        mov    [rdi], rax           ; not necessary to adjust so just save and return
        ret
""","""        mov    [rdi], eax           ; not necessary to adjust so just save and return
        mov    eax, [rsi+4]
        mov    [rdi+4], eax
        ret
""")]
FILES={"demo.cpp":r'''
#include "demo.h"
int main() {
    Z v("987654321987654321987654321");
    for (int s : {1, 7, -9, 123456}) {
        FrElement a = S(s), m, n, b = LM(v), r; memset(&n, 0, sizeof n);
        Fr_toMontgomery(&m, &a); Fr_neg(&n, &m); is("negation", val(n), red(Z(-s)));
        Fr_mul(&r, &n, &b); is("negated * Montgomery", val(r), red(-s * v));
        Fr_add(&r, &b, &n); is("Montgomery + negated", val(r), red(v - s));
    }
    return bad;
}
'''}
DEMO='''gen $BN_R Fr
build_asm "$HERE/demo.cpp"
"$W/demo"
'''
