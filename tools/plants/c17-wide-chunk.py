PROPERTY='C17'
NEEDS='131072 or more points, so that the windows have 16 bits'
BREAKS='the digit is kept in a signed 16-bit variable and large ones become negative'
EDITS=[('c/multiexp.cpp', '        uint64_t chunkValue = getChunk(i, idChunk);\n#ifdef _OPENMP', '        int16_t chunkValue = getChunk(i, idChunk);\n#ifdef _OPENMP')]
FILES={'demo.cpp':r'''
#include "demo.h"
#include "curve.hpp"
extern "C" int get_nprocs() noexcept { return 2; }
int main() {
    RawFr F; Curve<RawFr> E(F, "0", "3", "1", "2"); Curve<RawFr>::Point r, w;
    const int n = COUNT, z = 6; std::vector<Curve<RawFr>::PointAffine> b(n); std::vector<uint8_t> s(n * z); uint64_t x = 1; Z sum = 0;
    for (int i = 0; i < n; i++) { E.copy(b[i], E.oneAffine()); for (int j = 0; j < z; j++) { x = x * 6364136223846793005ull + 1; s[z * i + j] = x >> 56; } Z v; mpz_import(v.get_mpz_t(), z, -1, 1, 0, 0, &s[z * i]); sum += v; }
    uint8_t t[16] = {}; mpz_export(t, nullptr, -1, 1, 0, 0, sum.get_mpz_t()); E.mulByScalar(w, E.one(), t, 16);
    E.CALL(r, b.data(), s.data(), z, n); ok("sum", E.eq(r, w));
    return bad;
}
'''}
DEMO='''gen $BN_Q Fr
build_gen -DCOUNT=140000 -DCALL=multiMulByScalar "$HERE/demo.cpp" "$REPO/c/naf.cpp" "$REPO/c/misc.cpp" "$REPO/c/splitparstr.cpp"
"$W/demo"
'''
