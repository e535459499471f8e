PROPERTY='C07'
NEEDS='a Montgomery product whose result lies within 2^64 below the prime (x86-64 assembly)'
BREAKS='the final comparison leaves out the lowest word, so such a result has the prime subtracted and wraps'
EDITS=[('src/montgomerybuilder.js', '    for (let i=n64-1; i>=0; i--) {\n        c.op("cmp"', '    for (let i=n64-1; i>0; i--) {\n        c.op("cmp"')]
FILES={'demo.cpp':r'''
#include "demo.h"
int main() {
    Z q = modulus(), Ri; Z R1 = Z(1) << (64 * Fr_N64); mpz_invert(Ri.get_mpz_t(), R1.get_mpz_t(), q.get_mpz_t());
    gmp_randclass g(gmp_randinit_default); g.seed(7);
    for (int k = 0; k < 3000 && !bad; k++) {
        Z a = g.get_z_range(q), b = g.get_z_range(q); if (k % 3 == 0) a = q - 1 - k; if (k % 4 == 0) b = q - 1 - 5 * k;
        if (k % 5 == 0) { b = 1; a = red((q - 1 - k % 40) * R1); }           // a product just below the prime
        FrRawElement x, y, r; toLimbs(x, a); toLimbs(y, b);
        Fr_rawMMul(r, x, y); is("rawMMul", limbs(r), red(a * b * Ri));
        Fr_rawMSquare(r, x); is("rawMSquare", limbs(r), red(a * a * Ri));
        Fr_rawMMul1(r, x, k + 1); is("rawMMul1", limbs(r), red(a * (k + 1) * Ri));
        Fr_rawFromMontgomery(r, x); is("rawFromMontgomery", limbs(r), red(a * Ri));
    }
    return bad;
}
'''}
DEMO='''gen $BN_R Fr
build_asm "$HERE/demo.cpp"
"$W/demo"
'''
