PROPERTY='C22'
NEEDS='a witness file whose header section is longer than its fields'
BREAKS='the rest of the section is ignored instead of being reported'
EDITS=[('c/wtns_utils.cpp', '    f->endReadSection();', '    f->endReadSection(false);')]
FILES={"thread_utils.hpp":open("/verif/lib/cpp/shims/thread_utils.hpp").read(),"demo.cpp":r'''
#include <cstdio>
#include <stdexcept>
#include <vector>
#include <gmp.h>
#include "binfile_utils.hpp"
#include "wtns_utils.hpp"
static std::vector<uint8_t> f;
static void raw(const void *p, size_t n) { f.insert(f.end(), (const uint8_t *)p, (const uint8_t *)p + n); }
static void u32(uint32_t v) { raw(&v, 4); }
int main() {
    int bad = 0;
    for (uint64_t extra : {0, 1, 4}) {
        f.clear(); raw("wtns", 4); u32(2); u32(1); u32(1); uint64_t n = 40 + extra; raw(&n, 8);
        u32(32); std::vector<uint8_t> z(32 + 4, 3); z[32] = 9; z[33] = z[34] = z[35] = 0; raw(z.data(), 32); raw(&z[32], 4); raw(z.data(), extra);
        BinFileUtils::BinFile b(f.data(), f.size(), "wtns", 2);
        bool thrown = false;
        try { auto h = WtnsUtils::loadHeader(&b); if (h->nVars != 9) bad = 1; } catch (std::range_error *e) { thrown = true; }
        if (thrown != (extra > 0)) { printf("%d bytes more\n", (int)extra); bad = 1; }
    }
    return bad;
}
'''}
KIT=False
DEMO='''$CC -fopenmp -I"$HERE" -I"$REPO/c" "$HERE/demo.cpp" "$REPO/c/binfile_utils.cpp" "$REPO/c/wtns_utils.cpp" -o "$W/demo" -lgmp || exit 2
"$W/demo"
'''
