PROPERTY="C20"
NEEDS="two parallel loops in a row, the worker of the first still about to notify when the caller of the second waits"
BREAKS="wait takes the notification of the earlier task for its own and returns before the body has run"
EDITS=[("c/misc.hpp","        finished.wait(lock, [this]{return task == nullptr;});","        if (task != nullptr) {\n            finished.wait(lock);\n        }")]
FILES={"demo.cpp":r'''
#include <dlfcn.h>
#include <pthread.h>
#include <unistd.h>
#include <cstdio>
#include "misc.hpp"
static pthread_t caller;
// every notification of a worker arrives late
extern "C" int pthread_cond_signal(pthread_cond_t *c) {
    static auto real = (int (*)(pthread_cond_t *))dlvsym(RTLD_NEXT, "pthread_cond_signal", "GLIBC_2.3.2");
    if (!pthread_equal(pthread_self(), caller)) usleep(30000);
    int r = real(c);
    if (!pthread_equal(pthread_self(), caller)) usleep(10000);
    return r;
}
static std::atomic<int> done[10];
int main() {
    caller = pthread_self(); int bad = 0;
    ThreadPool pool(2);
    for (int k = 0; k < 10; k++) {
        pool.parallelFor(0, 2, [&](int b, int e, int t) { if (t == 1) usleep(10000); done[k] += e - b; });
        if (done[k] != 2) bad = 1;
    }
    if (bad) printf("parallelFor returned early\n");
    _exit(bad);
}
'''}
KIT=False
DEMO='''$CC -I"$REPO/c" "$HERE/demo.cpp" "$REPO/c/misc.cpp" -o "$W/demo" -ldl || exit 2
timeout 60 "$W/demo"
'''
