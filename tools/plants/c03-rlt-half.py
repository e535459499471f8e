PROPERTY="C03"
NEEDS="an ordering comparison of two long elements exactly one of which is (q-1)/2, the largest positive one (x86-64 assembly)"
BREAKS="(q-1)/2 counts as negative: the comparison of the lowest word with half uses <= instead of <"
EDITS=[("src/cmpops.asm.ejs","""        cmp     [half + <%= (i*8) %>], rax     ; comare with (q-1)/2
        jc <%=label_neg%>                           ; half<rax => e1-e2 is neg => e1 < e2
""","""        cmp     [half + <%= (i*8) %>], rax     ; comare with (q-1)/2
        <%= i>0 ? "jc" : "jbe" %> <%=label_neg%>                           ; half<rax => e1-e2 is neg => e1 < e2
""")]
FILES={"demo.cpp":r'''
#include "demo.h"
int main() {
    Z h = modulus() / 2; FrElement a = L(h), b = L(h - 5), n = L(h + 1), r;
    Fr_gt(&r, &a, &b); is("(q-1)/2 > (q-1)/2 - 5", val(r), 1);
    Fr_lt(&r, &a, &b); is("(q-1)/2 < (q-1)/2 - 5", val(r), 0);
    Fr_gt(&r, &a, &n); is("(q-1)/2 > (q+1)/2", val(r), 1);
    return bad;
}
'''}
DEMO='''gen $BN_R Fr
build_asm "$HERE/demo.cpp"
"$W/demo"
'''
