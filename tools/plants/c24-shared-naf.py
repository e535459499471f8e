PROPERTY='C24'
NEEDS='two threads that multiply points by scalars at the same time'
BREAKS='the digits of the scalar are kept in one buffer for the whole program'
EDITS=[('c/exp.hpp', '    uint8_t *naf = new uint8_t[(scalarSize+2)*8];\n', '    static uint8_t *naf = nullptr;\n    static unsigned int nafSize = 0;\n    if (nafSize < scalarSize) {\n        delete[] naf;\n        naf = new uint8_t[(scalarSize+2)*8];\n        nafSize = scalarSize;\n    }\n'), ('c/exp.hpp', '    delete[] naf;\n}', '}')]
FILES={'demo.cpp':r'''
#include "demo.h"
#include <thread>
#include "curve.hpp"
int main() {
    RawFr F; Curve<RawFr> E(F, "0", "3", "1", "2"); uint8_t s[4][32]; std::string want[4]; Curve<RawFr>::Point r;
    for (int i = 0; i < 4; i++) { for (int j = 0; j < 32; j++) s[i][j] = 17 * i + 91 * j + i * j * j; E.mulByScalar(r, E.one(), s[i], 32); want[i] = E.toString(r); }
    std::vector<std::thread> t; std::atomic<int> wrong(0);
    for (int i = 0; i < 4; i++) t.emplace_back([&, i] { Curve<RawFr>::Point r; for (int k = 0; k < 1500; k++) { E.mulByScalar(r, E.one(), s[i], 32); if (E.toString(r) != want[i]) wrong++; } });
    for (auto &x : t) x.join();
    ok("multiples", wrong == 0);
    return bad;
}
'''}
DEMO='''gen $BN_Q Fr
build_gen "$HERE/demo.cpp" "$REPO/c/naf.cpp" "$REPO/c/misc.cpp" "$REPO/c/splitparstr.cpp"
for i in 1 2 3; do "$W/demo" || exit 1; done
'''
