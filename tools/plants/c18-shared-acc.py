PROPERTY="C18"
NEEDS="a pool of two or more threads that sum their buckets at the same moment"
BREAKS="the running sums of the buckets are shared by the threads, a data race that mixes the chunks"
EDITS=[("c/msm.cpp","""    threadPool.parallelFor(0, nChunks, [&] (int begin, int end, int numThread) {
""","""    typename Curve::Point t, tmp;

    threadPool.parallelFor(0, nChunks, [&] (int begin, int end, int numThread) {
"""),("c/msm.cpp","""            typename Curve::Point t, tmp;

            g.copy(t""","""            g.copy(t""")]
FILES={"demo.cpp":r'''
#include "demo.h"
#include "curve.hpp"
extern "C" int get_nprocs() { return 8; }
int main() {
    RawFr F; Curve<RawFr> E(F, "0", "3", "1", "2"); Curve<RawFr>::Point r, w, t;
    const int n = 200; std::vector<Curve<RawFr>::PointAffine> b(n); std::vector<uint8_t> s(n * 32); uint64_t x = 1;
    for (int i = 0; i < n; i++) { E.copy(b[i], E.oneAffine()); for (int j = 0; j < 31; j++) { x = x * 6364136223846793005ull + 1; s[32 * i + j] = x >> 56; } }
    E.copy(w, E.zero()); for (int i = 0; i < n; i++) { E.mulByScalar(t, b[i], &s[32 * i], 32); E.add(w, w, t); }
    for (int k = 0; k < 300 && !bad; k++) { E.multiMulByScalarMSM(r, b.data(), s.data(), 32, n); ok("sum", E.eq(r, w)); }
    return bad;
}
'''}
DEMO='''gen $BN_Q Fr
build_gen "$HERE/demo.cpp" "$REPO/c/naf.cpp" "$REPO/c/misc.cpp" "$REPO/c/splitparstr.cpp"
"$W/demo"
'''
