// C17: ParallelMultiexp, C18: MSM, against the sum computed with integers: every base is a known combination
// i*G + j*H, so the expected result is A*G + B*H whatever the number of points.
#include "ext.hpp"
#include "misc.hpp"
#include "multiexp.hpp"
#include "msm.hpp"

extern "C" int get_nprocs(void) noexcept { const char *e = getenv("PBT_NPROCS"); return e ? atoi(e) : 4; }   // the size of the default pool

struct Problem {
    CurveCase k;
    std::vector<MP> table; std::vector<Z> ti, tj;     // table[x] = ti*G + tj*H
    size_t n, size;
    std::vector<int> base;                            // -1: the identity
    std::vector<uint8_t> scalars;
    size_t live = 0;
    Z scalar(size_t i) const { return scalarZ(scalars.data() + i * size, size); }
};

static Z genNr2(pbt::Tape &t) {
    for (int i = 0; i < 60; i++) { Z nr = genNr(t); if (mpz_legendre(nr.get_mpz_t(), M.q.get_mpz_t()) == -1) return nr; }
    throw pbt::Discard();
}

static void genTable(pbt::Tape &t, Problem &p, const MField &f) {
    p.k = genCurve(t, f, false);
    size_t m = 1 + t.below(10);
    for (size_t i = 0; i < m; i++) {
        long a = t.range(0, 12) - 4, b = p.k.two ? t.range(0, 8) - 3 : 0;
        if (i == 0) { a = 1; b = 0; }
        MP x = p.k.c.mul(p.k.g, a);
        if (b) x = p.k.c.add(x, p.k.c.mul(p.k.h, b));
        p.table.push_back(x); p.ti.push_back(a); p.tj.push_back(b);
    }
}
#ifdef LARGE
static size_t genSize(pbt::Tape &t) { return t.coin(1, 3) ? 32 : 1 + t.below(40); }
static size_t genCount(pbt::Tape &t, size_t) {      // next to a power of two, so that every window size is used
    size_t k = 9 + t.below(LARGE - 8);
    return ((size_t)1 << k) + t.below(t.coin() ? 5 : (size_t)1 << k) - (t.coin() ? 2 : 0);
}
#else
static size_t genSize(pbt::Tape &t) { return t.coin(1, 3) ? 32 : t.coin() ? 1 + t.below(8) : 1 + t.below(t.coin(1, 60) ? 300 : t.coin(1, 6) ? 72 : 40); }
static size_t genCount(pbt::Tape &t, size_t big) {
    switch (t.weighted({4, 5, 4, 2, 1})) {
    case 0: return t.below(5);
    case 1: return 1 + t.below(20);
    case 2: return 1 + t.below(70);
    case 3: return 1 + t.below(300);
    default: return 1 + t.below(big);
    }
}
#endif
static void genVector(pbt::Tape &t, Problem &p, size_t n, size_t size, const char **mode) {
    p.n = n; p.size = size; p.base.assign(n, 0); p.scalars.assign(n * size, 0); p.live = 0;
    size_t m = t.weighted({5, 3, 2, 2, 2, 2});
    static const char *names[] = {"mixed scalars", "uniform scalars", "equal scalars", "mostly zero", "opposite pairs", "large scalars"};
    *mode = names[m];
    bool compact = n > 60;            // long vectors are expanded from one draw
    uint64_t seed = compact ? t.u64() : 0;
    auto any = [&](uint64_t k) { return compact ? (uint64_t)(((unsigned __int128)pbt::splitmix(seed) * k) >> 64) : t.below(k); };
    std::vector<uint8_t> first = genScalar(t, size), second = genScalar(t, size);
    for (size_t i = 0; i < n; i++) {
        p.base[i] = any(12) == 11 ? -1 : (int)any(p.table.size());
        std::vector<uint8_t> s(size, 0);
        switch (m) {
        case 0: if (compact) { uint64_t w = any(4); if (w == 0) s = first; else if (w == 1) s = second; else for (auto &x : s) x = (uint8_t)any(256); } else s = genScalar(t, size); break;
        case 1: for (auto &x : s) x = (uint8_t)any(256); break;
        case 2: s = first; break;
        case 3: if (any(6) == 5) s = any(2) ? first : second; break;
        case 4: s = any(2) ? first : second; break;
        default: for (auto &x : s) x = 0xff; if (any(3)) s[any(size)] = (uint8_t)any(256); if (any(3) == 2) s[size - 1] |= 0x80; break;
        }
        memcpy(&p.scalars[i * size], s.data(), size);
    }
    for (size_t i = 0; i < n; i++) if (p.base[i] >= 0 && !p.table[p.base[i]].inf && p.scalar(i) > 0) p.live++;
}
static MP expected(const Problem &p, const std::function<bool(size_t)> &counts) {
    Z a = 0, b = 0;
    for (size_t i = 0; i < p.n; i++) if (p.base[i] >= 0 && counts(i)) { Z s = p.scalar(i); a += s * p.ti[p.base[i]]; b += s * p.tj[p.base[i]]; }
    MP r = p.k.c.mul(p.k.g, a);
    return p.k.two ? p.k.c.add(r, p.k.c.mul(p.k.h, b)) : r;
}

template <class BF> struct Run {
    typedef Lib<BF> L; typedef typename L::C C; typedef typename L::P P; typedef typename L::A A; typedef typename BF::Element El;
    static void go(pbt::Tape &t, const MField &f, BF &F, int what) {
        Problem p; genTable(t, p, f);
        A g; El a, b; put(a, p.k.c.a); put(b, p.k.c.b); putA(g, p.k.g, f);
        C c(F, a, b, g.x, g.y);
        ParallelMultiexp<C> me(c); MSM<C, BF> msm(c);
        #ifdef LARGE
        size_t rounds = 1;
#else
        size_t rounds = 1 + t.below(t.coin(1, 3) ? 3 : 1);
#endif
#ifdef BIG
        const size_t big = BIG;
#else
        const size_t big = f.deg == 2 ? 500 : 1200;
#endif
        for (size_t round = 0; round < rounds; round++) {
            const char *mode;
            size_t cnt = genCount(t, big), size = genSize(t);
            genVector(t, p, cnt, size, &mode);
            // each input in memory of exactly its size
            Guarded gs(p.scalars.size(), t.coin(3, 4)); if (cnt) memcpy(gs.p, p.scalars.data(), p.scalars.size()); gs.protect();
            Guarded gb(cnt * sizeof(A), true);
            std::vector<A> at(p.table.size() + 1); putA(at[0], MP(), f); for (size_t i = 0; i < p.table.size(); i++) putA(at[i + 1], p.table[i], f);
            for (size_t i = 0; i < cnt; i++) memcpy(gb.p + i * sizeof(A), &at[p.base[i] + 1], sizeof(A));
            gb.protect();
            struct { uint64_t before[4]; P r; uint64_t after[4]; } box; junk(&box, sizeof box, t.below(1000)); auto copy = box;
            unsigned threads = t.coin(1, 3) ? 0 : (unsigned)(1 + t.below(t.coin(1, 4) ? 17 : 6));
            const A *bases = (const A *)gb.p;
            bool wrap = t.coin(1, 3);                // through the curve's own member functions
            MP want;
            t.note("%s%s: %zu points, %s, %zu bytes each, threads %u, curve %s g=%s, table of %zu", round ? " then " : "", what == 2 ? "msm" : what ? "columns" : "multiexp", cnt, mode, size, threads, p.k.cls, showP(p.k.c, p.k.g).c_str(), p.table.size());
            if (cnt < 5) for (size_t i = 0; i < cnt; i++) t.note("; %s*%s", fm::hex(p.scalar(i)).c_str(), p.base[i] < 0 ? "O" : (p.ti[p.base[i]].get_str() + "G+" + p.tj[p.base[i]].get_str() + "H").c_str());
            t.label("n %s", cnt == 0 ? "0" : cnt == 1 ? "1" : cnt < 6 ? "2-5" : cnt < 21 ? "6-20" : cnt < 71 ? "21-70" : cnt < 301 ? "71-300" : cnt < 4097 ? "301-4096" : cnt < 65537 ? "4097-65536" : ">65536");
            t.label("%s", mode); t.label("scalar bytes %s", size < 8 ? "<8" : size == 8 ? "8" : size < 32 ? "9-31" : size == 32 ? "32" : ">32");
#ifdef _OPENMP
            int before = omp_get_max_threads();
#endif
            if (what == 0) {
                want = expected(p, [](size_t) { return true; });
                if (wrap) c.multiMulByScalar(box.r, (A *)bases, gs.p, (unsigned)size, (unsigned)cnt, threads); else me.multiexp(box.r, (A *)bases, gs.p, size, cnt, threads);
            } else if (what == 1) {
                uint64_t nx = 1 + t.below(8);
                Guarded gx(nx * 8, true); uint64_t *x = (uint64_t *)gx.p;
                uint64_t full = (cnt + nx - 1) / nx;
                for (uint64_t i = 0; i < nx; i++) { x[i] = t.weighted({1, 1, 4}) == 0 ? full : t.coin(1, 4) ? 0 : t.below(full + 3); t.note(" x%llu=%llu", (unsigned long long)i, (unsigned long long)x[i]); }
                gx.protect();
                want = expected(p, [&](size_t i) { return i / nx < x[i % nx]; });
                if (wrap) c.multiMulByScalar(box.r, (A *)bases, gs.p, (unsigned)size, (unsigned)cnt, (uint32_t)nx, x, threads); else me.multiexp(box.r, (A *)bases, gs.p, size, cnt, nx, x, threads);
            } else {
                want = expected(p, [](size_t) { return true; });
                if (wrap) c.multiMulByScalarMSM(box.r, (A *)bases, gs.p, (unsigned)size, (unsigned)cnt, threads); else msm.run(box.r, (A *)bases, gs.p, size, cnt, threads);
            }
            if (p.live >= 2) t.nontrivial();
            MP got = getP(box.r, f);
            PBT_CHECK(p.k.c.eq(got, want), "round %zu: the sum is %s, expected %s", round, showP(p.k.c, got).c_str(), showP(p.k.c, want).c_str());
            // the sum is a point like any other to the curve it belongs to
            P asP; A asA; putP(asP, want, f, f.one()); putA(asA, want, f);
            PBT_CHECK(c.isZero(box.r) == want.inf, "isZero of the sum is %d", !want.inf);
            PBT_CHECK(c.eq(box.r, asP) && c.eq(asP, box.r) && c.eq(box.r, asA), "the curve does not find the sum equal to itself, %s", showP(p.k.c, want).c_str());
            PBT_CHECK(c.eq(box.r, c.one()) == p.k.c.eq(want, p.k.g) && c.eq(c.one(), box.r) == p.k.c.eq(want, p.k.g), "comparing the sum %s with the generator gives the wrong answer", showP(p.k.c, want).c_str());
            PBT_CHECK(!memcmp(box.before, copy.before, 32) && !memcmp(box.after, copy.after, 32), "memory next to the result changed");
#ifdef _OPENMP
            PBT_CHECK(omp_get_max_threads() == before, "the number of threads of the caller became %d (was %d)", omp_get_max_threads(), before);
#endif
        }
    }
};
typedef Run<RawFr> R1; typedef Run<Ext2> R2;
static void add(const char *name, unsigned w1, unsigned w2, int what) {
    pbt::addProp(name, w1, [what](pbt::Tape &t) { static MField f(1); R1::go(t, f, RawFr::field, what); });
    pbt::addProp(std::string(name) + " F2", w2, [what](pbt::Tape &t) { Z nr = genNr2(t); MField f(2, nr); E1 e; put(e, nr); Ext2 F(e); R2::go(t, f, F, what); });
}
int main(int argc, char **argv) {
    add("C17/multiexp", 6, 2, 0);
    add("C17/columns", 5, 2, 1);
    add("C18/msm", 6, 2, 2);
    return pbt::mainDriver(argc, argv);
}
