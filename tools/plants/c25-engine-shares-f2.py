PROPERTY='C25'
NEEDS='an engine made before the objects of the namespace are, by a static object of another source file linked first'
BREAKS="G2 of every engine is built on the namespace's F2, which does not exist yet then"
EDITS=[('c/alt_bn128.hpp', '            g2(\n                f2,\n', '            g2(\n                AltBn128::F2,\n')]
FILES={'demo.cpp':r'''
#include <cstdio>
#include <string>
#include "alt_bn128.hpp"
static std::string twice() { static AltBn128::Engine e; AltBn128::G2Point r; e.g2.dbl(r, e.g2.one()); return e.g2.toString(r); }
static std::string early = twice();
int main() {
    AltBn128::Engine e; AltBn128::G2Point r; e.g2.dbl(r, e.g2.one());
    if (early != e.g2.toString(r)) { printf("2G2 was %s\n", early.c_str()); return 1; }
    return 0;
}
'''}
DEMO='''gen $BN_R Fr
gen $BN_Q Fq
$CC -I"$W" -I"$REPO/c" "$HERE/demo.cpp" "$W"/fr.cpp "$W"/fr_generic.cpp "$W"/fr_raw_generic.cpp "$W"/fq.cpp "$W"/fq_generic.cpp "$W"/fq_raw_generic.cpp "$REPO"/c/naf.cpp "$REPO"/c/misc.cpp "$REPO"/c/splitparstr.cpp "$REPO"/c/alt_bn128.cpp -o "$W/demo" -lgmp || exit 2
"$W/demo"
'''
