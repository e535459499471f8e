PROPERTY='C11'
NEEDS='ARM64, a field of at least nine words, and a caller that keeps a value in x19'
BREAKS='the functions that need many registers overwrite x19 without having saved it'
EDITS=[('src/armbuilder.js', '            if (reg >= 19) {', '            if (reg > 19) {')]
PBT=r'''#pragma once
#include <fstream>
#include <sstream>
#include <iostream>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
namespace pbt {
[[noreturn]] static inline void fail(const char *f, ...) { va_list v; va_start(v, f); vprintf(f, v); va_end(v); puts(""); exit(1); }
static inline uint64_t splitmix(uint64_t &s) { uint64_t z = (s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; return z ^ (z >> 27); }
}
'''
_e=open("/verif/lib/cpp/arm_emu.cpp").read()
FILES={"arm_emu.cpp":_e,"arm_emu.hpp":open("/verif/lib/cpp/arm_emu.hpp").read(),"pbt.hpp":PBT,'demo.cpp':r'''
#include "demo.h"
#include "arm_emu.hpp"
int main() {
    Z q = modulus();
    for (int i = 1; i < 20; i++) {
        uint64_t a[Fr_N64], b[Fr_N64], r[Fr_N64]; toLimbs(a, q - i); toLimbs(b, q - 2 * i);
        uint64_t args[] = {(uint64_t)r, (uint64_t)a, (uint64_t)b};
        arm::Region m[] = {{r, sizeof r, true}, {a, sizeof a, false}, {b, sizeof b, false}};
        arm::call("Fr_rawMMul", args, 3, m, 3);   // the emulator ends the program when a saved register has changed
        is("rawMMul", limbs(r), unmont(limbs(a) * limbs(b)));
    }
    return bad;
}
'''}
DEMO='''gen 6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151 Fr
build_gen -DARM_SOURCE="\\"$W/fr_raw_arm64.s\\"" "$HERE/demo.cpp" "$HERE/arm_emu.cpp"
"$W/demo"
'''
