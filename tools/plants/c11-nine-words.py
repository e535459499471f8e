PROPERTY='C11'
NEEDS='ARM64, a prime of nine words and operands that differ only in the highest one'
BREAKS='the comparison for equality leaves out the last word of a field of nine words'
EDITS=[('src/armbuilder.js', '        if (this.longNumber()) {\n            this.op("orr", "x17", "x17", r);', '        if (this.longNumber()) {\n            if (!(i === 2 && width === 1)) this.op("orr", "x17", "x17", r);')]
PBT=r'''#pragma once
#include <fstream>
#include <sstream>
#include <iostream>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
namespace pbt {
[[noreturn]] static inline void fail(const char *f, ...) { va_list v; va_start(v, f); vprintf(f, v); va_end(v); puts(""); exit(1); }
static inline uint64_t splitmix(uint64_t &s) { uint64_t z = (s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; return z ^ (z >> 27); }
}
'''
_e=open("/verif/lib/cpp/arm_emu.cpp").read()
FILES={"arm_emu.cpp":_e,"arm_emu.hpp":open("/verif/lib/cpp/arm_emu.hpp").read(),"pbt.hpp":PBT,'demo.cpp':r'''
#include "demo.h"
#include "arm_emu.hpp"
int main() {
    for (int i = 0; i < Fr_N64; i++) for (int b = 0; b < 9; b++) {
        uint64_t x[Fr_N64] = {}, y[Fr_N64] = {}; x[0] = y[0] = 77; y[i] ^= 1ull << b;
        uint64_t args[] = {(uint64_t)x, (uint64_t)y};
        arm::Region m[] = {{x, sizeof x, false}, {y, sizeof y, false}};
        ok("different", arm::call("Fr_rawIsEq", args, 2, m, 2) == 0); args[1] = args[0]; ok("same", arm::call("Fr_rawIsEq", args, 2, m, 1) == 1);
    }
    return bad;
}
'''}
DEMO='''gen 6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151 Fr
build_gen -DARM_SOURCE="\\"$W/fr_raw_arm64.s\\"" "$HERE/demo.cpp" "$HERE/arm_emu.cpp"
"$W/demo"
'''
