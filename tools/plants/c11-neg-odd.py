PROPERTY='C11'
NEEDS='ARM64, a prime of an odd number of words, at least five, and an element whose only word that is not zero is the highest'
BREAKS='the test for zero of rawNeg stops one word short, so that the negation of such an element is zero'
EDITS=[('src/armbuilder.js', '        if (this.width % 2) {\n            this.op("ldr", this.r1[i], this.getMemWord(1, i));\n            this.op("orr", "x2", "x2", this.r1[i]);', '        if (this.width % 2) {\n            this.op("ldr", this.r1[i], this.getMemWord(1, i));\n            if (this.width < 5) this.op("orr", "x2", "x2", this.r1[i]);')]
PBT=r'''#pragma once
#include <fstream>
#include <sstream>
#include <iostream>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
namespace pbt {
[[noreturn]] static inline void fail(const char *f, ...) { va_list v; va_start(v, f); vprintf(f, v); va_end(v); puts(""); exit(1); }
static inline uint64_t splitmix(uint64_t &s) { uint64_t z = (s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; return z ^ (z >> 27); }
}
'''
_e=open("/verif/lib/cpp/arm_emu.cpp").read()
FILES={"arm_emu.cpp":_e,"arm_emu.hpp":open("/verif/lib/cpp/arm_emu.hpp").read(),"pbt.hpp":PBT,'demo.cpp':r'''
#include "demo.h"
#include "arm_emu.hpp"
int main() {
    for (int i = 0; i < Fr_N64; i++) {
        uint64_t a[Fr_N64] = {}, r[Fr_N64]; a[i] = 3;
        uint64_t args[] = {(uint64_t)r, (uint64_t)a};
        arm::Region m[] = {{r, sizeof r, true}, {a, sizeof a, false}};
        arm::call("Fr_rawNeg", args, 2, m, 2);
        is("rawNeg", limbs(r), red(-limbs(a)));
    }
    return bad;
}
'''}
DEMO='''gen 2135987035920910082395021706169552114602704522356652769947041607822219725780640550022962086936379 Fr
build_gen -DARM_SOURCE="\\"$W/fr_raw_arm64.s\\"" "$HERE/demo.cpp" "$HERE/arm_emu.cpp"
"$W/demo"
'''
