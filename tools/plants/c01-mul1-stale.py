PROPERTY='C01'
NEEDS='a prime without a spare top bit, a short operand times a long one, and something left in the register of the extra word (x86-64 assembly)'
BREAKS="the product by a word starts with whatever the extra word's register held"
EDITS=[('src/montgomerybuilder.js', '            c.op("mulx", 0, t, "[rsi]");\n            for (let j=1; j<n64; j++) {\n                c.op("mulx", j%2, t+j, `[rsi +${j*8}]`);\n                c.op("adcx", t+j, (j-1)%2);\n            }\n            if (!canOptimizeConsensys) {\n                c.op("mov", t+n64, 3);\n                c.op("adcx", t+n64 , (n64-1)%2);\n                c.op("mov", t+n64+1, 3);\n                c.op("adcx", t+n64+1, 3);', '            c.op("mulx", 0, t, "[rsi]");\n            for (let j=1; j<n64; j++) {\n                c.op("mulx", j%2, t+j, `[rsi +${j*8}]`);\n                c.op("adcx", t+j, (j-1)%2);\n            }\n            if (!canOptimizeConsensys) {\n                c.op("mov", t+n64, 3);\n                c.op("adcx", t+n64 , (n64-1)%2);\n                c.op("adcx", t+n64+1, 3);')]
FILES={'demo.cpp':r'''
#include "demo.h"
int main() {
    Z q = modulus();
    for (int k = 1; k < 400; k++) {
        Z a = red(q / 3 * k + k * k); FrElement x = LM(a), y = S(k % 2 ? k : -k), r;
        register uint64_t r12 asm("r12") = 0x1111 + k, r13 asm("r13") = 0x2222, r14 asm("r14") = 0x3333, r15 asm("r15") = 0x4444; register uint64_t rbx asm("rbx") = 0x5555;
        asm volatile("" : "+r"(r12), "+r"(r13), "+r"(r14), "+r"(r15), "+r"(rbx));
        Fr_mul(&r, &x, &y);
        asm volatile("" : "+r"(r12), "+r"(r13), "+r"(r14), "+r"(r15), "+r"(rbx));
        is("mul", val(r), red(a * (k % 2 ? k : -k)));
    }
    return bad;
}
'''}
DEMO='''gen 115792089237316195423570985008687907853269984665640564039457584007908834671663 Fr
build_asm "$HERE/demo.cpp"
"$W/demo"
'''
