PROPERTY='C19'
NEEDS='a thread pool whose size does not divide the number of roots (3, 5, 6, 7 ... threads)'
BREAKS='the roots after the last full share are never computed'
EDITS=[('c/fft.cpp', 'uint64_t end   = idThread==nThreads-1 ? nRoots : (idThread+1) * increment;', 'uint64_t end   = (idThread+1) * increment;')]
FILES={'demo.cpp':r'''
#include "demo.h"
#include <stdexcept>
#include <iostream>
#include "misc.hpp"
#include "fft.hpp"
extern "C" int get_nprocs() noexcept { return 6; }
int main() {
    RawFr &F = RawFr::field; std::vector<char> dirty(1 << 20, 77); dirty.clear(); dirty.shrink_to_fit();
    FFT<RawFr> f(64); RawFr::Element w = f.root(6, 1), p; F.copy(p, F.one());
    for (int i = 0; i < 64; i++) { ok("root", F.eq(p, f.root(6, i))); F.mul(p, p, w); }
    return bad;
}
'''}
DEMO='''gen $BN_R Fr
build_gen "-DNDEBUG" "$HERE/demo.cpp" "$REPO/c/misc.cpp"
MALLOC_PERTURB_=77 "$W/demo"
'''
