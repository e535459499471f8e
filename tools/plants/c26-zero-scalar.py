PROPERTY='C26'
NEEDS='multiplications by a scalar of zero'
BREAKS='the early return for a scalar without digits keeps its buffer'
EDITS=[('c/exp.hpp', '    while ((i>=0)&&(naf[i] == 0)) i--;\n', '    while ((i>=0)&&(naf[i] == 0)) i--;\n    if (i < 0) return;\n')]
FILES={'demo.cpp':r'''
#include "demo.h"
#include "curve.hpp"
static long live = 0;
void *operator new[](size_t n) { live++; return malloc(n); }
void operator delete[](void *p) noexcept { if (p) live--; free(p); }
void operator delete[](void *p, size_t) noexcept { if (p) live--; free(p); }
int main() {
    RawFr F; Curve<RawFr> E(F, "0", "3", "1", "2"); Curve<RawFr>::Point r; uint8_t s[32] = {0};
    long before = live;
    for (int i = 0; i < 3; i++) E.mulByScalar(r, E.one(), s, 32);
    ok("zero", E.isZero(r)); ok("buffers given back", live == before);
    return bad;
}
'''}
DEMO='''gen $BN_Q Fr
build_gen "$HERE/demo.cpp" "$REPO/c/naf.cpp" "$REPO/c/misc.cpp" "$REPO/c/splitparstr.cpp"
"$W/demo"
'''
