PROPERTY='C19'
NEEDS='a domain of one or two and a pool of more threads than the field has roots there'
BREAKS='threads with an empty share of the roots write one all the same, beyond the end of the table'
EDITS=[('c/fft.cpp', '        if (end>start) {\n', '        if (end>=start || nThreads>nRoots) {\n')]
FILES={'demo.cpp':r'''
#include "demo.h"
#include <stdexcept>
#include <iostream>
#include "misc.hpp"
#include "fft.hpp"
extern "C" int get_nprocs() noexcept { return 5; }
int main() {
    for (uint64_t n : {1, 2}) { FFT<RawFr> f(n); ok("root", !RawFr::field.isZero(f.root(1, 1))); }
    return bad;
}
'''}
DEMO='''gen $BN_R Fr
build_gen -fsanitize=address "$HERE/demo.cpp" "$REPO/c/misc.cpp"
ASAN_OPTIONS=detect_leaks=0 "$W/demo"
'''
