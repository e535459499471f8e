PROPERTY='C10'
NEEDS='a prime without a spare top bit and a caller that leaves something in the register of the extra word (x86-64 assembly)'
BREAKS="conversion from Montgomery form adds what the extra word's register happened to hold, so the two backends differ"
EDITS=[('src/montgomerybuilder.js', '            c.op("mov", t+n64, 3);\n            if (!canOptimizeConsensys) {\n                c.op("mov", t+n64+1, 3);\n            }\n        } else {', '            c.op("mov", t+n64, 3);\n        } else {')]
FILES={'demo.cpp':r'''
#include "demo.h"
int main() {
    Z q = modulus(), Ri, R1 = Z(1) << (64 * Fr_N64); mpz_invert(Ri.get_mpz_t(), R1.get_mpz_t(), q.get_mpz_t());
    for (int k = 0; k < 200; k++) {
        Z a = red(Z(k) * 1000003 * 1000003 * k * k * k * k * k * k * q / 77);
        FrRawElement x, r; toLimbs(x, a);
        register uint64_t r12 asm("r12") = 0x1111 + k, r13 asm("r13") = 0x2222, r14 asm("r14") = 0x3333, r15 asm("r15") = 0x4444; register uint64_t rbx asm("rbx") = 0x5555;
        asm volatile("" : "+r"(r12), "+r"(r13), "+r"(r14), "+r"(r15), "+r"(rbx));
        Fr_rawFromMontgomery(r, x);
        asm volatile("" : "+r"(r12), "+r"(r13), "+r"(r14), "+r"(r15), "+r"(rbx));
        is("rawFromMontgomery", limbs(r), red(a * Ri));
    }
    return bad;
}
'''}
DEMO='''gen 115792089237316195423570985008687907853269984665640564039457584007908834671663 Fr
build_asm "$HERE/demo.cpp"
"$W/demo"
'''
