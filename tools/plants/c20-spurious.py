PROPERTY='C20'
NEEDS='a worker waiting for work whose wait ends without a notification (a spurious wakeup)'
BREAKS='the worker runs a task it has not been given'
EDITS=[("c/misc.hpp","                occupied.wait(lock, [this]{return task != nullptr || stop;});","                if (task == nullptr && !stop) {\n                    occupied.wait(lock);\n                }")]
FILES={"demo.cpp":r'''
#include <dlfcn.h>
#include <pthread.h>
#include <unistd.h>
#include <cstdio>
#include "misc.hpp"
// every third wait ends by itself
extern "C" int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    static auto real = (int (*)(pthread_cond_t *, pthread_mutex_t *))dlvsym(RTLD_NEXT, "pthread_cond_wait", "GLIBC_2.3.2");
    static std::atomic<int> n(0);
    if (n++ % 3 == 1) { pthread_mutex_unlock(m); usleep(1000); pthread_mutex_lock(m); return 0; }
    return real(c, m);
}
int main() {
    std::atomic<int> done(0);
    ThreadPool pool(3);
    for (int k = 0; k < 20; k++) pool.parallelFor(0, 30, [&](int b, int e, int t) { usleep(500); done += e - b; });
    if (done != 600) { printf("%d of 600\n", (int)done); return 1; }
    return 0;
}
'''}
KIT=False
DEMO='''$CC -I"$REPO/c" "$HERE/demo.cpp" "$REPO/c/misc.cpp" -o "$W/demo" -ldl || exit 2
timeout 60 "$W/demo"
'''
