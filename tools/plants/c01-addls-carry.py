PROPERTY="C01"
NEEDS="a prime within 2^31 of 2^(64*limbs), a long operand in the last 2^31 values below it and a short operand whose sum passes 2^(64*limbs) (x86-64 assembly)"
BREAKS="rawAddLS no longer subtracts q when the sum of a long and a small positive short element carries out of the top word, so add returns a wrong value"
EDITS=[("src/add.asm.ejs","""        jc rawAddLS_sq   ; if overflow, substract q

        ; Compare with q
<% for (let i=0; i<n64; i++) { %>
        mov rax, [rdi + <%= (n64-i-1)*8 %>]
        cmp rax, [q + <%= (n64-i-1)*8 %>]
        jc rawAddLS_done        ; q is bigget so done.""","""
        ; Compare with q
<% for (let i=0; i<n64; i++) { %>
        mov rax, [rdi + <%= (n64-i-1)*8 %>]
        cmp rax, [q + <%= (n64-i-1)*8 %>]
        jc rawAddLS_done        ; q is bigget so done.""")]
FILES={"demo.cpp":r'''
#include "demo.h"
int main() {
    FrElement a, b, r; Z q = modulus();
    for (int k = 1; k < 400; k += 13) for (int s : {1, 200, 1000, 2147483647}) {
        a = L(q - k); b = S(s);
        Fr_add(&r, &a, &b); is("long + short", val(r), red(q - k + s));
        Fr_add(&r, &b, &a); is("short + long", val(r), red(q - k + s));
    }
    return bad;
}
'''}
DEMO='''gen 115792089237316195423570985008687907853269984665640564039457584007913129639747 Fr
build_asm "$HERE/demo.cpp"
"$W/demo"
'''
