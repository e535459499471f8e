PROPERTY="C21"
NEEDS="a reader that leaves a section without having read all of it (or having read past it)"
BREAKS="endReadSection accepts a section that was not read completely"
EDITS=[("c/binfile_utils.cpp","- (u_int64_t)(readingSection->start) != readingSection->size)","- (u_int64_t)(readingSection->start) > readingSection->size)")]
FILES={"thread_utils.hpp":open("/verif/lib/cpp/shims/thread_utils.hpp").read(),"demo.cpp":r'''
#include <cstdio>
#include <cstring>
#include <stdexcept>
#include "binfile_utils.hpp"
int main() {
    uint32_t d[10] = {0x74736574, 1, 1, 7, 16, 0, 1, 2, 3, 4};
    int bad = 0;
    for (int n = 0; n <= 4; n++) {
        BinFileUtils::BinFile f(d, sizeof d, "test", 1); bool thrown = false;
        f.startReadSection(7);
        for (int i = 0; i < n; i++) if (f.readU32LE() != (uint32_t)(i + 1)) bad = 1;
        try { f.endReadSection(); } catch (std::range_error *) { thrown = true; }
        if (thrown != (n < 4)) bad = 1;
    }
    if (bad) printf("sections are not checked\n");
    return bad;
}
'''}
KIT=False
DEMO='''$CC -fopenmp -I"$HERE" -I"$REPO/c" "$HERE/demo.cpp" "$REPO/c/binfile_utils.cpp" -o "$W/demo" || exit 2
"$W/demo"
'''
