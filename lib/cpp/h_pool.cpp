// C20: ThreadPool (and log2).  With a controlled scheduler, or (FREE) with real threads and no interposition.
#ifndef FREE
#include "sched.hpp"
#else
#include "pbt.hpp"
#endif
#include <cstdint>
#include "misc.hpp"

extern "C" int get_nprocs(void) noexcept { const char *e = getenv("PBT_NPROCS"); return e ? atoi(e) : 4; }

#ifndef FREE
static void spin(unsigned n) { for (unsigned i = 0; i < n; i++) sched::point("a body"); }
template <class F> void under(pbt::Tape &t, F f) { sched::run(t, f); t.note("; %llu synchronisation steps, %llu switches", (unsigned long long)sched::ctl().steps, (unsigned long long)sched::ctl().switches); }
#else
static void spin(unsigned n) { if (n > 2) usleep(20 * n); else for (unsigned i = 0; i < n; i++) sched_yield(); }
template <class F> void under(pbt::Tape &t, F f) { f(); }
#endif

struct Call { int a, b, k; };
static void checkFor(ThreadPool &pool, unsigned n, int begin, int end, unsigned work, size_t at) {
    // plain memory written by the bodies: what they did must be visible after the return without further locking
    size_t len = begin < end ? (size_t)(end - begin) : 0, cap = std::max<size_t>(n, 1);
    bool wide = len > 100000;                        // then the ranges are compared, not each of their elements
    std::vector<int> hits(wide ? 0 : len, 0); std::vector<Call> calls(cap + 1, Call{0, 0, -1}); std::vector<int> per(cap, 0);
    std::atomic<int> bad(0), total(0), running(0);
    volatile bool returned = false;
    pool.parallelFor(begin, end, [&](int a, int b, int k) {
        running++;
        if (returned) bad = 1;
        spin(work);
        total++;
        if (k < 0 || k >= (int)cap) bad = 2;
        else { per[k]++; calls[k] = Call{a, b, k}; }
        if (a < begin || b > end || a > b) bad = 3;
        else if (!wide) for (int i = a; i < b; i++) hits[i - begin]++;
        spin(work & 1);
        running--;
    });
    returned = true;
    PBT_CHECK(running == 0, "step %zu: parallelFor(%d, %d) returned while a body was running", at, begin, end);
    PBT_CHECK(bad != 2, "step %zu: parallelFor(%d, %d) called a body with a thread number outside 0..%u", at, begin, end, n - 1);
    PBT_CHECK(bad != 3, "step %zu: parallelFor(%d, %d) called a body with a range outside it", at, begin, end);
    for (size_t k = 0; k < cap; k++) PBT_CHECK(per[k] <= 1, "step %zu: parallelFor(%d, %d) used thread number %zu for %d calls", at, begin, end, k, per[k]);
    if (wide) {
        std::vector<Call> c; for (auto &x : calls) if (x.k >= 0 && x.a < x.b) c.push_back(x);
        std::sort(c.begin(), c.end(), [](const Call &x, const Call &y) { return x.a < y.a; });
        int at2 = begin; for (auto &x : c) { PBT_CHECK(x.a == at2, "step %zu: parallelFor(%d, %d) over %u threads has a range from %d where one from %d should be", at, begin, end, n, x.a, at2); at2 = x.b; }
        PBT_CHECK(at2 == end, "step %zu: parallelFor(%d, %d) over %u threads ends at %d", at, begin, end, n, at2);
    }
    else for (size_t i = 0; i < len; i++) PBT_CHECK(hits[i] == 1, "step %zu: parallelFor(%d, %d) over %u threads visited %d %d times", at, begin, end, n, begin + (int)i, hits[i]);
    int before = total;
    spin(2);
    PBT_CHECK(total == before && !bad, "step %zu: a body of parallelFor(%d, %d) ran after it returned", at, begin, end);
}
static void checkBlock(ThreadPool &pool, unsigned n, unsigned work, size_t at) {
    std::vector<int> per(n, 0); std::atomic<int> bad(0), total(0), running(0);
    pool.parallelBlock([&](int k, int cnt) {
        running++; spin(work); total++;
        if (k < 0 || k >= (int)n) bad = 2; else per[k]++;
        if (cnt != (int)n) bad = 4;
        spin(work & 1); running--;
    });
    PBT_CHECK(running == 0, "step %zu: parallelBlock returned while a body was running", at);
    PBT_CHECK(bad != 2, "step %zu: parallelBlock called a body with a thread number outside 0..%u", at, n - 1);
    PBT_CHECK(bad != 4, "step %zu: parallelBlock gave a body a thread count other than %u", at, n);
    for (unsigned k = 0; k < n; k++) PBT_CHECK(per[k] == 1, "step %zu: parallelBlock called the body for thread %u %d times", at, k, per[k]);
    int before = total;
    spin(2);
    PBT_CHECK(total == before, "step %zu: a body of parallelBlock ran after it returned", at);
}
struct Op { int kind, begin, end; unsigned work; };
static Op genOp(pbt::Tape &t, unsigned n, bool big) {
    Op o; o.kind = (int)t.weighted({6, 3, 1});
    o.work = (unsigned)t.weighted({3, 2, 2, 1});
    int len;
    switch (t.weighted({3, 3, 2, 1, 1, 1})) {
    case 0: len = (int)t.below(4); break;
    case 1: len = (int)t.below(2 * n + 3); break;
    case 2: len = (int)t.below(40); break;
    case 3: len = (int)(n * t.below(5) + t.below(3)); break;
    case 5: len = 100001 + (int)t.below(t.coin() ? 0x7fffffff - 100001 : 1 << 20); break;
    default: len = big ? (int)t.below(5000) : (int)t.below(200); break;
    }
    o.begin = len > 0x7fffff00 ? 0 : t.coin(1, 2) ? (int)t.range(-50, 50) : t.coin(1, 4) ? (t.coin() ? 2147483647 - len : -2147483647 - 1) : 0;
    if (o.begin > 0 && len > 0x7fffffff - o.begin) o.begin = -o.begin;
    o.end = o.begin + len;
    if (o.begin > -1000 && t.coin(1, 30)) o.end = o.begin - (int)t.below(5);      // nothing to do
    return o;
}
static void apply(ThreadPool &p, unsigned n, const Op &o, size_t at) {
    if (o.kind == 0) checkFor(p, n, o.begin, o.end, o.work, at);
    else if (o.kind == 1) checkBlock(p, n, o.work, at);
    else PBT_CHECK(p.getThreadCount() == n, "step %zu: getThreadCount is %u, expected %u", at, p.getThreadCount(), n);
}
int main(int argc, char **argv) {
    const char *pn = getenv("PBT_NPROCS"); unsigned hw = pn ? (unsigned)std::max(1, atoi(pn)) : 4;
    // pools created, used and destroyed
    pbt::addProp("C20/pool", 20, [hw](pbt::Tape &t) {
        size_t pools = 1 + t.below(3);
        struct Plan { unsigned arg, n; std::vector<Op> ops; };
        std::vector<Plan> plan;
        size_t real = 0;
        for (size_t i = 0; i < pools; i++) {
            Plan p; p.arg = t.coin(1, 8) && hw <= 8 ? 0 : 1 + (unsigned)t.below(t.coin(1, 4) ? 8 : 4); p.n = p.arg ? p.arg : hw;
            size_t k = t.below(6); while (k--) { p.ops.push_back(genOp(t, p.n, false)); if (p.n > 1) real++; }
            plan.push_back(p);
            t.label("pool of %u%s, %zu operations", p.n, p.arg ? "" : " (default)", p.ops.size());
            t.note("%spool(%u):", i ? " " : "", p.arg); for (auto &o : p.ops) { if (o.kind == 0) t.note(" for(%d,%d)", o.begin, o.end); else t.note(o.kind == 1 ? " block" : " count"); }
        }
        if (real) t.nontrivial();
        under(t, [&] { for (auto &p : plan) { ThreadPool pool(p.arg); size_t at = 0; for (auto &o : p.ops) apply(pool, p.n, o, at++); } });
    }, 40);
    // two pools at a time
    pbt::addProp("C20/two", 6, [hw](pbt::Tape &t) {
        unsigned n[2] = {1 + (unsigned)t.below(4), 1 + (unsigned)t.below(4)};
        std::vector<std::pair<int, Op>> ops; size_t k = 1 + t.below(8);
        for (size_t i = 0; i < k; i++) { int w = (int)t.below(2); ops.push_back({w, genOp(t, n[w], false)}); }
        t.label("two pools"); t.note("pools of %u and %u, %zu operations", n[0], n[1], k);
        if (n[0] + n[1] > 2) t.nontrivial();
        under(t, [&] { ThreadPool a(n[0]), b(n[1]); size_t at = 0; for (auto &o : ops) apply(o.first ? b : a, n[o.first], o.second, at++); });
    }, 40);
#ifdef FREE
    // the shared default pool, used from the cases of one process one after the other
    pbt::addProp("C20/default", 6, [hw](pbt::Tape &t) {
        ThreadPool &p = ThreadPool::defaultPool();
        PBT_CHECK(&p == &ThreadPool::defaultPool(), "defaultPool gives two pools");
        PBT_CHECK(ThreadPool::defaultThreadCount() == hw, "defaultThreadCount is %u, expected %u", ThreadPool::defaultThreadCount(), hw);
        size_t k = 1 + t.below(30);
        t.label("default pool of %u", hw); t.note("%zu operations on the default pool of %u", k, hw); if (hw > 1) t.nontrivial();
        for (size_t i = 0; i < k; i++) apply(p, hw, genOp(t, hw, true), i);
    }, 40);
#endif
    pbt::addProp("C20/divide", 3, [](pbt::Tape &t) {
        int n = t.coin() ? 1 + (int)t.below(60) : 1 + (int)(t.below(0x7ffffffe) >> t.below(31)), k = t.coin() ? 1 + (int)t.below(40) : 1 + (int)t.below(3000);
        t.label("divideWork"); t.note("%d elements over %d threads", n, k); if (n > 1 && k > 1) t.nontrivial();
        std::vector<int> j = ThreadPool::divideWork(n, k);
        long long s = 0;
        for (int x : j) { PBT_CHECK(x > 0, "a job of %d elements", x); s += x; }
        PBT_CHECK(s == n && (int)j.size() <= k && !j.empty(), "%zu jobs of %lld elements together for %d elements over %d threads", j.size(), s, n, k);
    });
    pbt::addProp("C20/log2", 3, [](pbt::Tape &t) {
        uint32_t v; switch (t.below(3)) { case 0: v = 1 + (uint32_t)t.below(70); break; case 1: v = (uint32_t)((1ull << t.below(32)) + t.below(3) - 1); break; default: v = (uint32_t)(t.below(1ull << 32) >> t.below(32)); }
        if (!v) v = 1;
        uint32_t want = 31 - __builtin_clz(v), got = log2(v);
        t.label("log2"); t.note("log2(%u)", v); if (v > 1) t.nontrivial();
        PBT_CHECK(got == want, "log2(%u) is %u", v, got);
    });
    return pbt::mainDriver(argc, argv);
}
