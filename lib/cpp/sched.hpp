// A controlled scheduler for programs written with pthreads (and so with std::thread, std::mutex and
// std::condition_variable): the calls are interposed, only one thread runs at a time, and at each of them the
// next thread is drawn from the case's tape.  A schedule is thus part of the case: it replays and shrinks like
// any other draw, and a state in which no thread can run is an outcome (deadlock), found without waiting.
// The real mutexes are kept in step with the model, so that a program which also synchronises through something
// this does not see can be released to run freely (after a thread has not come back for a while).
#pragma once
#include "pbt.hpp"
#include <pthread.h>
#include <dlfcn.h>
#include <errno.h>

namespace sched {

typedef int (*mfn)(pthread_mutex_t *); typedef int (*cfn)(pthread_cond_t *);
struct Real {
    mfn lock, unlock, trylock; cfn signal, broadcast;
    int (*wait)(pthread_cond_t *, pthread_mutex_t *);
    int (*timedwait)(pthread_cond_t *, pthread_mutex_t *, const struct timespec *);
    int (*clockwait)(pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *);
    int (*create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
    int (*join)(pthread_t, void **);
    Real() {
        *(void **)&lock = dlsym(RTLD_NEXT, "pthread_mutex_lock"); *(void **)&unlock = dlsym(RTLD_NEXT, "pthread_mutex_unlock");
        *(void **)&trylock = dlsym(RTLD_NEXT, "pthread_mutex_trylock");
        *(void **)&signal = dlsym(RTLD_NEXT, "pthread_cond_signal"); *(void **)&broadcast = dlsym(RTLD_NEXT, "pthread_cond_broadcast");
        *(void **)&wait = dlsym(RTLD_NEXT, "pthread_cond_wait"); *(void **)&timedwait = dlsym(RTLD_NEXT, "pthread_cond_timedwait");
        *(void **)&clockwait = dlsym(RTLD_NEXT, "pthread_cond_clockwait");
        *(void **)&create = dlsym(RTLD_NEXT, "pthread_create"); *(void **)&join = dlsym(RTLD_NEXT, "pthread_join");
    }
};
inline Real &real() { static Real r; return r; }

enum State { READY, ON_MUTEX, ON_COND, ON_JOIN, DONE };
struct Th {
    State st = READY; const void *obj = nullptr; const void *mx = nullptr; int target = -1; pthread_t id; bool woken = false;
    pthread_cond_t cv = PTHREAD_COND_INITIALIZER; const char *where = "start";
};
struct Ctl {
    volatile bool active = false, free = false;
    pthread_mutex_t G = PTHREAD_MUTEX_INITIALIZER;
    std::vector<Th *> th; std::map<const void *, int> owner;
    int cur = -1; uint64_t steps = 0, switches = 0; pbt::Tape *t = nullptr;
};
inline Ctl &ctl() { static Ctl c; return c; }
inline int &me() { static thread_local int m = -1; return m; }

[[noreturn]] inline void stop(const char *msg) {
    pbt::Tape *t = ctl().t;
    if (t && t->sh) { snprintf(t->sh->msg, pbt::MSGLEN, "%s", msg); t->sh->done = 2; }
    _exit(0);
}
inline bool controlled() { return ctl().active && !ctl().free && me() >= 0; }
inline bool ready(const Th *x) {
    Ctl &c = ctl();
    switch (x->st) {
    case READY: return true;
    case ON_MUTEX: { auto i = c.owner.find(x->obj); return i == c.owner.end() || i->second < 0; }
    case ON_JOIN: return c.th[x->target]->st == DONE;
    default: return false;
    }
}
inline void release() {          // let every thread run freely from here on
    Ctl &c = ctl(); c.free = true;
    for (Th *x : c.th) real().signal(&x->cv);
}
// Called with G held by the running thread, its own state already set: picks the next thread, and returns
// when this one is picked again (or at once if it is done).
inline void next(const char *where) {
    Ctl &c = ctl(); Th *self = c.th[me()]; self->where = where;
    std::vector<int> r; std::vector<int> w;
    if (self->st != DONE && ready(self)) r.push_back(me());
    for (int i = 0; i < (int)c.th.size(); i++) if (i != me()) { if (ready(c.th[i])) r.push_back(i); else if (c.th[i]->st == ON_COND) w.push_back(i); }
    if (self->st == ON_COND) w.push_back(me());
    int pick = -1;
    if (!w.empty() && r.size() && c.t->coin(1, 40)) {        // a spurious wakeup, which POSIX allows
        pick = w[c.t->below(w.size())]; c.th[pick]->st = ON_MUTEX; c.th[pick]->obj = c.th[pick]->mx; c.th[pick]->woken = true;
        if (!ready(c.th[pick])) pick = -1;
    }
    if (pick < 0) {
        if (r.empty()) {
            bool all = true; std::string s = "deadlock: no thread can run;";
            for (size_t i = 0; i < c.th.size(); i++) if (c.th[i]->st != DONE) { all = false; char b[80]; snprintf(b, sizeof b, " thread %zu waits in %s;", i, c.th[i]->where); s += b; }
            if (!all) stop(s.c_str());
            return;
        }
        pick = r.size() == 1 ? r[0] : r[c.t->coin(1, 2) ? c.t->below(r.size()) : 0];
    }
    if (++c.steps > 200000) stop("more than 200000 synchronisation steps (livelock)");
    if (pick == me()) return;
    c.switches++; c.cur = pick; real().signal(&c.th[pick]->cv);
    if (self->st == DONE) return;
    while (c.cur != me() && !c.free) {
        uint64_t before = c.steps;
        struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); ts.tv_sec += 4;
        if (real().timedwait(&self->cv, &c.G, &ts) == ETIMEDOUT && c.cur != me() && c.steps == before) release();
    }
}
inline void point(const char *where) {
    if (!controlled()) return;
    Ctl &c = ctl(); real().lock(&c.G); if (!c.free) next(where); real().unlock(&c.G);
}
struct Start { void *(*fn)(void *); void *arg; int id; };
inline void *trampoline(void *p) {
    Start s = *(Start *)p; delete (Start *)p;
    Ctl &c = ctl(); me() = s.id;
    real().lock(&c.G); while (c.cur != s.id && !c.free) real().wait(&c.th[s.id]->cv, &c.G); real().unlock(&c.G);
    void *r = s.fn(s.arg);
    real().lock(&c.G); c.th[s.id]->st = DONE; if (!c.free) next("end"); else for (Th *x : c.th) real().signal(&x->cv); real().unlock(&c.G);
    me() = -1;
    return r;
}
inline int wait(pthread_cond_t *cv, pthread_mutex_t *m, bool canTimeOut) {
    Ctl &c = ctl(); real().lock(&c.G);
    if (!c.free) next("a call to wait");       // before it takes effect: the predicate is evaluated, the thread not yet waiting
    if (c.free) { real().unlock(&c.G); return -1; }
    Th *self = c.th[me()];
    c.owner[m] = -1; real().unlock(m);
    self->obj = cv; self->mx = m; self->woken = false;
    self->st = canTimeOut && c.t->coin(1, 4) ? ON_MUTEX : ON_COND;
    if (self->st == ON_MUTEX) self->obj = m;
    next("wait");
    bool timedOut = canTimeOut && !self->woken;
    self->st = READY; self->obj = nullptr;
    if (!c.free) { c.owner[m] = me(); real().lock(m); real().unlock(&c.G); }
    else { real().unlock(&c.G); real().lock(m); }
    return timedOut ? ETIMEDOUT : 0;
}
inline void wake(pthread_cond_t *cv, bool all) {
    Ctl &c = ctl(); real().lock(&c.G);
    if (!c.free) {
        std::vector<Th *> w;
        for (Th *x : c.th) if (x->st == ON_COND && x->obj == cv) w.push_back(x);
        while (!w.empty()) { size_t i = w.size() > 1 ? c.t->below(w.size()) : 0; w[i]->st = ON_MUTEX; w[i]->obj = w[i]->mx; w[i]->woken = true; w.erase(w.begin() + i); if (!all) break; }
        next("notify");
    }
    real().unlock(&c.G);
}
// Runs f with every thread it creates under control.
template <class F> void run(pbt::Tape &t, F f) {
    Ctl &c = ctl();
    for (Th *x : c.th) delete x;
    c.th.clear(); c.owner.clear(); c.t = &t; c.steps = c.switches = 0; c.free = false; c.cur = 0; me() = 0;
    Th *m = new Th; m->id = pthread_self(); c.th.push_back(m);
    c.active = true;
    try { f(); } catch (...) { c.active = false; throw; }      // a failure ends this process, whatever the other threads do
    for (size_t i = 1; i < c.th.size(); i++) if (c.th[i]->st != DONE && !c.free) stop("a thread is still there after everything was destroyed");
    c.active = false; me() = -1;
}
} // namespace sched

extern "C" {
int pthread_mutex_lock(pthread_mutex_t *m) noexcept {
    using namespace sched;
    if (!controlled()) return real().lock(m);
    Ctl &c = ctl(); real().lock(&c.G);
    if (!c.free) { Th *s = c.th[me()]; s->st = ON_MUTEX; s->obj = m; next("mutex lock"); s->st = READY; }
    if (c.free) { real().unlock(&c.G); return real().lock(m); }
    c.owner[m] = me(); int r = real().lock(m); real().unlock(&c.G);
    return r;
}
int pthread_mutex_trylock(pthread_mutex_t *m) noexcept {
    using namespace sched;
    point("trylock");
    int r = real().trylock(m);
    if (controlled() && r == 0) { Ctl &c = ctl(); real().lock(&c.G); c.owner[m] = me(); real().unlock(&c.G); }
    return r;
}
int pthread_mutex_unlock(pthread_mutex_t *m) noexcept {
    using namespace sched;
    if (!controlled()) return real().unlock(m);
    Ctl &c = ctl(); real().lock(&c.G);
    c.owner[m] = -1; int r = real().unlock(m);
    if (!c.free) next("mutex unlock");
    real().unlock(&c.G);
    return r;
}
int pthread_cond_wait(pthread_cond_t *cv, pthread_mutex_t *m) { int r = sched::controlled() ? sched::wait(cv, m, false) : -1; return r >= 0 ? r : sched::real().wait(cv, m); }
int pthread_cond_timedwait(pthread_cond_t *cv, pthread_mutex_t *m, const struct timespec *ts) { int r = sched::controlled() ? sched::wait(cv, m, true) : -1; return r >= 0 ? r : sched::real().timedwait(cv, m, ts); }
int pthread_cond_clockwait(pthread_cond_t *cv, pthread_mutex_t *m, clockid_t k, const struct timespec *ts) { int r = sched::controlled() ? sched::wait(cv, m, true) : -1; return r >= 0 ? r : sched::real().clockwait(cv, m, k, ts); }
int pthread_cond_signal(pthread_cond_t *cv) noexcept { if (sched::controlled()) { sched::wake(cv, false); if (!sched::ctl().free) return 0; } return sched::real().signal(cv); }
int pthread_cond_broadcast(pthread_cond_t *cv) noexcept { if (sched::controlled()) { sched::wake(cv, true); if (!sched::ctl().free) return 0; } return sched::real().broadcast(cv); }
int pthread_create(pthread_t *id, const pthread_attr_t *at, void *(*fn)(void *), void *arg) noexcept {
    using namespace sched;
    if (!controlled()) return real().create(id, at, fn, arg);
    Ctl &c = ctl(); real().lock(&c.G);
    Th *x = new Th; int n = (int)c.th.size(); c.th.push_back(x);
    Start *s = new Start{fn, arg, n};
    int r = real().create(id, at, trampoline, s);
    if (r == 0) { x->id = *id; if (!c.free) next("thread creation"); } else { x->st = DONE; delete s; }
    real().unlock(&c.G);
    return r;
}
int pthread_join(pthread_t id, void **ret) {
    using namespace sched;
    if (controlled()) {
        Ctl &c = ctl(); real().lock(&c.G);
        for (size_t i = 1; i < c.th.size() && !c.free; i++) if (pthread_equal(c.th[i]->id, id)) { Th *s = c.th[me()]; s->st = ON_JOIN; s->target = (int)i; next("join"); s->st = READY; c.th[i]->id = 0; break; }
        real().unlock(&c.G);
    }
    return real().join(id, ret);
}
}
