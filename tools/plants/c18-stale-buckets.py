PROPERTY='C18'
NEEDS='a pool smaller than the number of windows, so that a thread works on two of them'
BREAKS='the buckets of a thread are emptied once and not before each window'
EDITS=[('c/msm.cpp', '        for (int j = begin; j < end; j++) {\n\n            typename Curve::Point *buckets = &bucketMatrix[numThread*nBuckets];\n\n            for (int i = 0; i < nBuckets; i++) {\n                g.copy(buckets[i], g.zero());\n            }\n', '        typename Curve::Point *buckets = &bucketMatrix[numThread*nBuckets];\n\n        for (int i = 0; i < nBuckets; i++) {\n            g.copy(buckets[i], g.zero());\n        }\n\n        for (int j = begin; j < end; j++) {\n')]
FILES={'demo.cpp':r'''
#include "demo.h"
#include "curve.hpp"
extern "C" int get_nprocs() noexcept { return 2; }
int main() {
    RawFr F; Curve<RawFr> E(F, "0", "3", "1", "2"); Curve<RawFr>::Point r, w;
    const int n = COUNT, z = 6; std::vector<Curve<RawFr>::PointAffine> b(n); std::vector<uint8_t> s(n * z); uint64_t x = 1; Z sum = 0;
    for (int i = 0; i < n; i++) { E.copy(b[i], E.oneAffine()); for (int j = 0; j < z; j++) { x = x * 6364136223846793005ull + 1; s[z * i + j] = x >> 56; } Z v; mpz_import(v.get_mpz_t(), z, -1, 1, 0, 0, &s[z * i]); sum += v; }
    uint8_t t[16] = {}; mpz_export(t, nullptr, -1, 1, 0, 0, sum.get_mpz_t()); E.mulByScalar(w, E.one(), t, 16);
    E.CALL(r, b.data(), s.data(), z, n); ok("sum", E.eq(r, w));
    return bad;
}
'''}
DEMO='''gen $BN_Q Fr
build_gen -DCOUNT=40 -DCALL=multiMulByScalarMSM "$HERE/demo.cpp" "$REPO/c/naf.cpp" "$REPO/c/misc.cpp" "$REPO/c/splitparstr.cpp"
"$W/demo"
'''
