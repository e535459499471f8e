PROPERTY='C20'
NEEDS='a pool destroyed while a worker has seen that there is nothing to do and is about to wait'
BREAKS='the request to stop is made without the lock, its notification is lost, and destroying the pool never returns'
EDITS=[('c/misc.hpp', '            std::lock_guard<std::mutex> lock(mutex);\n            stop = true;', '            stop = true;')]
FILES={'demo.cpp':r'''
#include <dlfcn.h>
#include <pthread.h>
#include <unistd.h>
#include <cstdio>
#include "misc.hpp"
// a worker takes its time between looking and waiting
extern "C" int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    static auto real = (int (*)(pthread_cond_t *, pthread_mutex_t *))dlvsym(RTLD_NEXT, "pthread_cond_wait", "GLIBC_2.3.2");
    usleep(20000);
    return real(c, m);
}
int main() {
    for (int i = 0; i < 20; i++) { ThreadPool *p = new ThreadPool(3); usleep(10000); delete p; }
    _exit(0);
}
'''}
KIT=False
DEMO='''$CC -I"$REPO/c" "$HERE/demo.cpp" "$REPO/c/misc.cpp" -o "$W/demo" -ldl || exit 2
timeout 30 "$W/demo"
'''
