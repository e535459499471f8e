PROPERTY="C17"
NEEDS="the multi-exponentiation with columns called with an explicit number of threads by a program that uses OpenMP itself afterwards"
BREAKS="the number of threads is set for good: the caller's OpenMP limit is not what it was before"
EDITS=[("c/multiexp.cpp","""                                      uint64_t nx,
                                      uint64_t x[],
                                        uint64_t _nThreads) {
#ifdef _OPENMP
    nThreads = _nThreads==0 ? omp_get_max_threads() : _nThreads;
    ThreadLimit threadLimit (nThreads);
#else""","""                                      uint64_t nx,
                                      uint64_t x[],
                                        uint64_t _nThreads) {
#ifdef _OPENMP
    nThreads = _nThreads==0 ? omp_get_max_threads() : _nThreads;
    omp_set_num_threads(nThreads);
#else""")]
FILES={"demo.cpp":r'''
#include "demo.h"
#include <omp.h>
#include "curve.hpp"
int main() {
    RawFr F; Curve<RawFr> E(F, "0", "3", "1", "2"); Curve<RawFr>::Point r, w;
    std::vector<Curve<RawFr>::PointAffine> b(6); for (auto &p : b) E.copy(p, E.oneAffine());
    std::vector<uint8_t> s(6 * 8); for (size_t i = 0; i < 6; i++) s[8 * i] = i + 1;
    uint64_t x[2] = {3, 2}; uint8_t k[1] = {1 + 2 + 3 + 4 + 5};
    omp_set_num_threads(5);
    E.multiMulByScalar(r, b.data(), s.data(), 8, 6, 2, x, 2);
    E.mulByScalar(w, E.one(), k, 1);
    ok("sum", E.eq(r, w));
    ok("thread limit", omp_get_max_threads() == 5);
    return bad;
}
'''}
DEMO='''gen $BN_Q Fr
build_gen -fopenmp -DUSE_OPENMP "$HERE/demo.cpp" "$REPO/c/naf.cpp" "$REPO/c/misc.cpp" "$REPO/c/splitparstr.cpp"
"$W/demo"
'''
