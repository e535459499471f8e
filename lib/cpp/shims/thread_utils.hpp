// binfile_utils.cpp includes this header of the programs that use it; the repository has no copy of its own.
#pragma once
#include <string.h>
#include <sys/types.h>
namespace ThreadUtils {
// A harness with a source of many gigabytes, nearly all of them untouched zero pages, names the pieces worth copying
// (into fresh memory, which is zero too).
struct Sparse { const void *src; const u_int64_t *at, *len; int n; };
inline Sparse *&sparse() { static Sparse *s = nullptr; return s; }
inline void parcpy(void *dst, const void *src, u_int64_t nBytes, int) {
    if (sparse() && sparse()->src == src) {
        for (int i = 0; i < sparse()->n; i++) {
            u_int64_t a = sparse()->at[i], b = a + sparse()->len[i];
            if (b > nBytes) b = nBytes;
            if (a < b) memcpy((char *)dst + a, (const char *)src + a, b - a);
        }
    } else memcpy(dst, src, nBytes);
}
}
