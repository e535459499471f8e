PROPERTY="C07"
NEEDS="Montgomery squaring in a field whose prime uses the top bit of its top word, of a value whose product carries twice into the extra word (x86-64 assembly)"
BREAKS="the second carry chain of the squaring no longer reaches the extra word, so some squares are wrong by a multiple of 2^(64*limbs)"
EDITS=[("src/montgomerybuilder.js","""                c.op("mulx", 1, 0, `[rsi +${j*8}]`);
                c.op("adcx", t+j, 0);
                c.op("adox", t+j+1, 1);
            }
            if (!canOptimizeConsensys) {
                c.op("adcx", t+n64, 3);
                c.op("adcx", t+n64+1, 3);
                c.op("adox", t+n64+1, 3);""","""                c.op("mulx", 1, 0, `[rsi +${j*8}]`);
                c.op("adcx", t+j, 0);
                c.op("adox", t+j+1, 1);
            }
            if (!canOptimizeConsensys) {
                c.op("adcx", t+n64, 3);
                c.op("adcx", t+n64+1, 3);""")]
FILES={"demo.cpp":r'''
#include "demo.h"
int main() {
    Z q = modulus(), v = q - 1, i; Z R = red(Z(1) << (64 * Fr_N64)); mpz_invert(i.get_mpz_t(), R.get_mpz_t(), q.get_mpz_t());
    for (int k = 0; k < 20000 && !bad; k++) {
        FrRawElement a, r; toLimbs(a, v); Fr_rawMSquare(r, a);
        is("square", limbs(r), red(v * v * i));
        v = k % 2 ? red(v * v + k) : Z(q - 1 - k);
    }
    return bad;
}
'''}
DEMO='''gen 115792089237316195423570985008687907853269984665640564039457584007913129639747 Fr
build_asm "$HERE/demo.cpp"
"$W/demo"
'''
