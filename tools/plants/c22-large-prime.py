PROPERTY='C22'
NEEDS='a proving key whose two primes have different sizes'
BREAKS="the scalar field's prime is read with the size of the base field's"
EDITS=[('c/zkey_utils.cpp', '    h->n8r = f->readU32LE();\n    mpz_import(h->rPrime, h->n8r , -1, 1, -1, 0, f->read(h->n8r));', '    h->n8r = f->readU32LE();\n    mpz_import(h->rPrime, h->n8q , -1, 1, -1, 0, f->read(h->n8r));')]
FILES={'thread_utils.hpp':r'''// binfile_utils.cpp includes this header of the programs that use it; the repository has no copy of its own.
#pragma once
#include <string.h>
#include <sys/types.h>
namespace ThreadUtils {
inline void parcpy(void *dst, const void *src, u_int64_t nBytes, int) { memcpy(dst, src, nBytes); }
}
''','demo.cpp':r'''
#include <cstdio>
#include <cstring>
#include <vector>
#include <gmp.h>
#include "zkey_utils.hpp"
static std::vector<uint8_t> d;
static void u32(uint32_t v) { for (int i = 0; i < 4; i++) d.push_back(v >> (8 * i)); }
static void u64(uint64_t v) { u32(v); u32(v >> 32); }
int main() {
    const int nq = 48, nr = 32; int bad = 0;
    d.assign({'z', 'k', 'e', 'y'}); u32(1); u32(3);
    u32(1); u64(4); u32(1);
    u32(2); u64(4 + nq + 4 + nr + 12 + nq * 18); u32(nq); for (int i = 0; i < nq; i++) d.push_back(i + 1); u32(nr); for (int i = 0; i < nr; i++) d.push_back(100 + i); u32(5); u32(6); u32(7); for (int i = 0; i < nq * 18; i++) d.push_back(i);
    u32(4); u64(44 * 3); d.resize(d.size() + 44 * 3);
    BinFileUtils::BinFile f(d.data(), d.size(), "zkey", 1); auto h = ZKeyUtils::loadHeader(&f);
    if (mpz_sizeinbase(h->rPrime, 2) > 8 * nr || mpz_sizeinbase(h->qPrime, 2) > 8 * nq || h->nVars != 5 || h->nCoefs != 3) bad = 1;
    if (bad) printf("the header is wrong\n");
    return bad;
}
'''}
KIT=False
DEMO='''$CC -fopenmp -I"$HERE" -I"$REPO/c" "$HERE/demo.cpp" "$REPO/c/binfile_utils.cpp" "$REPO/c/zkey_utils.cpp" -o "$W/demo" -lgmp || exit 2
"$W/demo"
'''
