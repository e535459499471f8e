PROPERTY="C19"
NEEDS="a transform domain exactly one power of two beyond the field's roots of unity"
BREAKS="the domain is accepted, with half the roots it needs"
EDITS=[("c/fft.cpp","    if (s<domainPow) {","    if (s+1<domainPow) {")]
FILES={"demo.cpp":r'''
#include "demo.h"
#include <stdexcept>
#include <iostream>
#include "misc.hpp"
#include "fft.hpp"
int main() { // secp256k1's q - 1 = 2 * odd
    for (uint64_t n : {1, 2, 4, 8}) {
        bool thrown = false;
        try { FFT<RawFr> f(n); } catch (std::range_error &) { thrown = true; }
        ok("domain", thrown == (n > 2));
    }
    return bad;
}
'''}
DEMO='''gen 115792089237316195423570985008687907853269984665640564039457584007908834671663 Fr
build_gen "$HERE/demo.cpp" "$REPO/c/misc.cpp"
"$W/demo"
'''
