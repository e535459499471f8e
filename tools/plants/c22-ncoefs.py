PROPERTY="C22"
NEEDS="a proving key over a curve whose scalar field elements do not have 32 bytes"
BREAKS="the number of coefficients is computed for 32-byte elements"
EDITS=[("c/zkey_utils.cpp","(12 + h->n8r);","(12 + 32);")]
FILES={"thread_utils.hpp":open("/verif/lib/cpp/shims/thread_utils.hpp").read(),"demo.cpp":r'''
#include <cstdio>
#include <cstring>
#include <vector>
#include <gmp.h>
#include "binfile_utils.hpp"
#include "zkey_utils.hpp"
static std::vector<uint8_t> f;
static void raw(const void *p, size_t n) { f.insert(f.end(), (const uint8_t *)p, (const uint8_t *)p + n); }
static void u32(uint32_t v) { raw(&v, 4); }
static void sec(uint32_t id, uint64_t n) { u32(id); raw(&n, 8); }
int main() {
    int bad = 0;
    for (uint32_t n8r : {8, 24, 32, 40, 96}) {
        f.clear(); raw("zkey", 4); u32(1); u32(3);
        sec(1, 4); u32(1);
        const uint32_t n8q = 48; std::vector<uint8_t> z(n8q * 20, 3);
        sec(2, 4 + n8q + 4 + n8r + 12 + n8q * 18); u32(n8q); raw(z.data(), n8q); u32(n8r); raw(z.data(), n8r); u32(5); u32(2); u32(16); raw(z.data(), n8q * 18);
        std::vector<uint8_t> c(7 * (12 + n8r)); sec(4, c.size()); raw(c.data(), c.size());
        BinFileUtils::BinFile b(f.data(), f.size(), "zkey", 1);
        auto h = ZKeyUtils::loadHeader(&b);
        if (h->nCoefs != 7) { printf("n8r %u: %llu coefficients\n", n8r, (unsigned long long)h->nCoefs); bad = 1; }
        if (h->nVars != 5 || h->nPublic != 2 || h->domainSize != 16) bad = 1;
    }
    return bad;
}
'''}
KIT=False
DEMO='''$CC -fopenmp -I"$HERE" -I"$REPO/c" "$HERE/demo.cpp" "$REPO/c/binfile_utils.cpp" "$REPO/c/zkey_utils.cpp" -o "$W/demo" -lgmp || exit 2
"$W/demo"
'''
