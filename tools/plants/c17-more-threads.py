PROPERTY='C17'
NEEDS='more threads asked for than OpenMP would use by itself'
BREAKS='room is made for fewer threads than run: they write beyond the accumulators'
EDITS=[("c/multiexp.cpp","""                                      uint64_t nx,
                                      uint64_t x[],
                                        uint64_t _nThreads) {
#ifdef _OPENMP
    nThreads = _nThreads==0 ? omp_get_max_threads() : _nThreads;
    ThreadLimit threadLimit (nThreads);
#else""","""                                      uint64_t nx,
                                      uint64_t x[],
                                        uint64_t _nThreads) {
#ifdef _OPENMP
    nThreads = omp_get_max_threads();
    if (_nThreads != 0 && _nThreads < nThreads) nThreads = _nThreads;
    ThreadLimit threadLimit (_nThreads==0 ? nThreads : _nThreads);
#else""")]
FILES={"demo.cpp":r'''
#include "demo.h"
#include <omp.h>
#include "curve.hpp"
int main() {
    RawFr F; Curve<RawFr> E(F, "0", "3", "1", "2"); Curve<RawFr>::Point r, w;
    std::vector<Curve<RawFr>::PointAffine> b(60); for (auto &p : b) E.copy(p, E.oneAffine());
    std::vector<uint8_t> s(60 * 8); for (size_t i = 0; i < 60; i++) s[8 * i] = 1;
    uint64_t x[2] = {30, 30}; uint8_t k[1] = {60};
    omp_set_num_threads(2);
    E.multiMulByScalar(r, b.data(), s.data(), 8, 60, 2, x, 7);
    E.mulByScalar(w, E.one(), k, 1);
    ok("sum", E.eq(r, w));
    return bad;
}
'''}
DEMO='''gen $BN_Q Fr
build_gen -fopenmp -DUSE_OPENMP -fsanitize=address "$HERE/demo.cpp" "$REPO/c/naf.cpp" "$REPO/c/misc.cpp" "$REPO/c/splitparstr.cpp"
ASAN_OPTIONS=detect_leaks=0 "$W/demo"
'''
