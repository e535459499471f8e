PROPERTY="C11"
NEEDS="ARM64, a prime that uses the top bit of its top word, and a sum that carries out of the words while its low part is below the prime"
BREAKS="rawAdd decides by the final comparison alone and stores the sum without subtracting the prime"
EDITS=[("src/armbuilder.js","""        const label = this.makeLabel("done_s");

        this.op("cbnz", "x2", label);
        this.op("b.hs",       label);""","""        const label = this.makeLabel("done_s");

        this.op("b.hs",       label);""")]
PBT=r'''#pragma once
#include <fstream>
#include <sstream>
#include <iostream>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
namespace pbt {
[[noreturn]] static inline void fail(const char *f, ...) { va_list v; va_start(v, f); vprintf(f, v); va_end(v); puts(""); exit(1); }
static inline uint64_t splitmix(uint64_t &s) { uint64_t z = (s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; return z ^ (z >> 27); }
}
'''
_e=open("/verif/lib/cpp/arm_emu.cpp").read()
FILES={"arm_emu.cpp":_e,"arm_emu.hpp":open("/verif/lib/cpp/arm_emu.hpp").read(),"pbt.hpp":PBT,"demo.cpp":r'''
#include "demo.h"
#include "arm_emu.hpp"
int main() {
    Z q = modulus();
    for (int i = 1; i < 50; i++) for (int j = 1; j < 50; j += 7) {
        uint64_t a[Fr_N64], b[Fr_N64], r[Fr_N64]; toLimbs(a, q - i); toLimbs(b, q / 2 + j);
        uint64_t args[] = {(uint64_t)r, (uint64_t)a, (uint64_t)b};
        arm::Region m[] = {{r, sizeof r, true}, {a, sizeof a, false}, {b, sizeof b, false}};
        arm::call("Fr_rawAdd", args, 3, m, 3);
        is("rawAdd", limbs(r), red(q - i + q / 2 + j));
    }
    return bad;
}
'''}
DEMO='''gen 115792089237316195423570985008687907853269984665640564039457584007913129639747 Fr
build_gen -DARM_SOURCE="\\"$W/fr_raw_arm64.s\\"" "$HERE/demo.cpp" "$HERE/arm_emu.cpp"
"$W/demo"
'''
