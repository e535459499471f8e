PROPERTY="C04"
NEEDS="a shift by a long amount whose lowest word is that of q-k (k below the bit length) while its top word differs from q's (x86-64 assembly)"
BREAKS="the amount counts as -k and the value is shifted the other way, where the result must be 0"
EDITS=[("src/binops.asm.ejs","""        <% for (let i=1; i<n64; i++) { %>
        mov rax, [q+ <%= (i)*8 %>] ""","""        <% for (let i=1; i<Math.max(n64-1, 2); i++) { %>
        mov rax, [q+ <%= (i)*8 %>] """)]
FILES={"demo.cpp":r'''
#include "demo.h"
int main() {
    Z q = modulus(); FrElement a = L(Z("123456789012345678901234567890")), r;
    for (int k = 1; k < 20; k++) {
        FrElement b = L(q - k - (Z(1) << 192)), c = L(q - k);
        Fr_shl(&r, &a, &b); is("shift by a large amount", val(r), 0);
        Fr_shr(&r, &a, &b); is("shift by a large amount", val(r), 0);
        Fr_shl(&r, &a, &c); is("shift by -k", val(r), Z("123456789012345678901234567890") >> k);
    }
    return bad;
}
'''}
DEMO='''gen $BN_R Fr
build_asm "$HERE/demo.cpp"
"$W/demo"
'''
