PROPERTY='C07'
NEEDS='a field of so many words that two values live in the stack frame and take turns in the one work register (x86-64 assembly)'
BREAKS='a value is dropped from the work register without being written back when another one takes its place'
EDITS=[('src/asmbuilder.js', '                if (this.wrAssignments[0].modified) {\n                    this.code.push(`    mov ${this.regRefs[this.wrAssignments[0].ref]}, ${this.wrAssignments[0].reg}`);\n                }\n                this.wrAvailable.push(this.wrAssignments[0].reg);', '                this.wrAvailable.push(this.wrAssignments[0].reg);')]
FILES={'demo.cpp':r'''
#include "demo.h"
int main() {
    Z q = modulus(), Ri; Z R1 = Z(1) << (64 * Fr_N64); mpz_invert(Ri.get_mpz_t(), R1.get_mpz_t(), q.get_mpz_t());
    gmp_randclass g(gmp_randinit_default); g.seed(7);
    for (int k = 0; k < 3000 && !bad; k++) {
        Z a = g.get_z_range(q), b = g.get_z_range(q); if (k % 3 == 0) a = q - 1 - k; if (k % 4 == 0) b = q - 1 - 5 * k;
        if (k % 5 == 0) { b = 1; a = red((q - 1 - k % 40) * R1); }           // a product just below the prime
        FrRawElement x, y, r; toLimbs(x, a); toLimbs(y, b);
        Fr_rawMMul(r, x, y); is("rawMMul", limbs(r), red(a * b * Ri));
        Fr_rawMSquare(r, x); is("rawMSquare", limbs(r), red(a * a * Ri));
        Fr_rawMMul1(r, x, k + 1); is("rawMMul1", limbs(r), red(a * (k + 1) * Ri));
        Fr_rawFromMontgomery(r, x); is("rawFromMontgomery", limbs(r), red(a * Ri));
    }
    return bad;
}
'''}
DEMO='''gen 41898490967918953402344214791240637128170709919953949071783502921025352812571106773058893763790338921418070971888458477323173057491593855069696241854796396165721416325350064441470418137846398469611935719059908164220784476160001 Fr
build_asm "$HERE/demo.cpp"
"$W/demo"
'''
