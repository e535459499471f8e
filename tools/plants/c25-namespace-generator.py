PROPERTY='C25'
NEEDS='the curve objects of the namespace used instead of an engine'
BREAKS="the namespace's G2 starts from the negated generator, the engine's from the standard one"
EDITS=[("c/alt_bn128.cpp",'"8495653923123431417604973247489272438418190587263600148770280649306958101930, 4082367875863433681332203403145435568316851327593401208105741076214120093531"','"13392588948715843804641432497768002650278120570034223513918757245338268106653, 17805874995975841540914202342111839520379459829704422454583296818431106115052"')]
FILES={'demo.cpp':r'''
#include <cstdio>
#include "alt_bn128.hpp"
int main() {
    AltBn128::Engine e;
    if (AltBn128::G2.toString(AltBn128::G2.one()) != e.g2.toString(e.g2.one())) { printf("two generators\n"); return 1; }
    return 0;
}
'''}
DEMO='''gen $BN_R Fr
gen $BN_Q Fq
$CC -I"$W" -I"$REPO/c" "$HERE/demo.cpp" "$W"/fr.cpp "$W"/fr_generic.cpp "$W"/fr_raw_generic.cpp "$W"/fq.cpp "$W"/fq_generic.cpp "$W"/fq_raw_generic.cpp "$REPO"/c/naf.cpp "$REPO"/c/misc.cpp "$REPO"/c/splitparstr.cpp "$REPO"/c/alt_bn128.cpp -o "$W/demo" -lgmp || exit 2
"$W/demo"
'''
