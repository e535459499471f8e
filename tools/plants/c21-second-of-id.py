PROPERTY='C21'
NEEDS='a container with two sections of the same id, the second one opened or asked for by index'
BREAKS='the size of a repeated section is that of the first one'
EDITS=[('c/binfile_utils.cpp', '        return sections[sectionId][sectionPos].size;', '        return sections[sectionId].front().size;')]
FILES={'thread_utils.hpp':r'''// binfile_utils.cpp includes this header of the programs that use it; the repository has no copy of its own.
#pragma once
#include <string.h>
#include <sys/types.h>
namespace ThreadUtils {
inline void parcpy(void *dst, const void *src, u_int64_t nBytes, int) { memcpy(dst, src, nBytes); }
}
''','demo.cpp':r'''
#include <cstdio>
#include "binfile_utils.hpp"
int main() {
    uint32_t d[16] = {0x74736574, 1, 2, 7, 8, 0, 1, 2, 7, 4, 0, 3};
    BinFileUtils::BinFile f(d, 48, "test", 1);
    int bad = f.getSectionSize(7) != 8 || f.getSectionSize(7, 1) != 4 || *(uint32_t *)f.getSectionData(7, 1) != 3;
    if (bad) printf("section 7 is wrong\n");
    return bad;
}
'''}
KIT=False
DEMO='''$CC -fopenmp -I"$HERE" -I"$REPO/c" "$HERE/demo.cpp" "$REPO/c/binfile_utils.cpp" -o "$W/demo" || exit 2
"$W/demo"
'''
