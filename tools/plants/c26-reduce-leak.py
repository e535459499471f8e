PROPERTY='C26'
NEEDS='a multi-exponentiation of two or more points, and a look at the memory afterwards'
BREAKS='the last step of every reduction forgets the partial sums it has allocated'
EDITS=[('c/multiexp.cpp', '    if (nBits==1) {\n        g.copy(res, accs[1].p);', '    PaddedPoint *sall = new PaddedPoint[nThreads];\n    if (nBits==1) {\n        g.copy(res, accs[1].p);'), ('c/multiexp.cpp', '\n\n    PaddedPoint *sall = new PaddedPoint[nThreads];\n    memset', '\n\n    memset')]
FILES={'demo.cpp':r'''
#include "demo.h"
#include "curve.hpp"
static long live = 0;
void *operator new[](size_t n) { live++; return malloc(n); }
void operator delete[](void *p) noexcept { if (p) live--; free(p); }
void operator delete[](void *p, size_t) noexcept { if (p) live--; free(p); }
int main() {
    RawFr F; Curve<RawFr> E(F, "0", "3", "1", "2"); Curve<RawFr>::Point r;
    std::vector<Curve<RawFr>::PointAffine> b(6); for (auto &p : b) E.copy(p, E.oneAffine());
    std::vector<uint8_t> s(6 * 8, 3); long before = live;
    for (int i = 0; i < 3; i++) E.multiMulByScalar(r, b.data(), s.data(), 8, 6);
    ok("arrays given back", live == before);
    return bad;
}
'''}
DEMO='''gen $BN_Q Fr
build_gen "$HERE/demo.cpp" "$REPO/c/naf.cpp" "$REPO/c/misc.cpp" "$REPO/c/splitparstr.cpp"
"$W/demo"
'''
