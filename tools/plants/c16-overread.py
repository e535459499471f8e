PROPERTY='C16'
NEEDS='a scalar followed by a byte with its lowest bit set, and a highest bit of the scalar that starts a new digit'
BREAKS='the bit after the scalar counts as part of it'
EDITS=[('c/naf.cpp', '        if (i<scalarSize-1) st += (scalar[i+1] & 1) << 8;', '        if (i<scalarSize) st += (scalar[i+1] & 1) << 8;')]
FILES={'demo.cpp':r'''
#include <cstdio>
#include <gmpxx.h>
#include "naf.hpp"
int main() {
    int bad = 0;
    for (int top : {0x01, 0x41, 0x80, 0xff}) for (int next : {0, 1, 255}) {
        uint8_t s[4] = {17, 3, (uint8_t)top, (uint8_t)next}, d[5 * 8];
        buildNaf(d, s, 3);
        mpz_class v = 0; for (int i = 39; i >= 0; i--) v = 2 * v + (d[i] == 1 ? 1 : d[i] == 2 ? -1 : 0);
        if (v != 17 + 3 * 256 + top * 65536) { printf("%d followed by %d\n", top, next); bad = 1; }
    }
    return bad;
}
'''}
KIT=False
DEMO='''$CC -include cstdint -I"$REPO/c" "$HERE/demo.cpp" "$REPO/c/naf.cpp" -o "$W/demo" -lgmp || exit 2
"$W/demo"
'''
