// C19: FFT<RawFr> against a transform computed with integers.
#include "fieldgen.hpp"
#include "fr.hpp"
#include <cassert>
#include <iostream>
#include <stdexcept>
#include <gmp.h>
#include "misc.hpp"
#include "fft.hpp"
#include "ext.hpp"

extern "C" int get_nprocs(void) noexcept { const char *e = getenv("PBT_NPROCS"); return e ? atoi(e) : 4; }   // the size of the default pool
// a domain that should have been rejected must not take the machine's memory
void *operator new[](size_t n) { if (n > (1ull << 30)) throw std::bad_alloc(); return ::operator new(n); }
#ifndef MAXPOW
#define MAXPOW 12
#endif
typedef FFT<RawFr> Fft;

static int adicity() { static int a = (int)mpz_scan1(Z(M.q - 1).get_mpz_t(), 0); return a; }
// a generator of the subgroup of order 2^k: the smallest quadratic non-residue, raised
static Z rootOf(int k) {
    static Z nr = [] { Z x = 2; while (mpz_legendre(x.get_mpz_t(), M.q.get_mpz_t()) != -1) x++; return x; }();
    return M.powm(nr, (M.q - 1) >> k);
}
static std::vector<Z> transform(const std::vector<Z> &a, const Z &w) {
    size_t n = a.size();
    if (n == 1) return a;
    std::vector<Z> e(n / 2), o(n / 2), r(n);
    for (size_t i = 0; i < n / 2; i++) { e[i] = a[2 * i]; o[i] = a[2 * i + 1]; }
    Z w2 = M.mod(w * w);
    e = transform(e, w2); o = transform(o, w2);
    Z p = 1;
    for (size_t i = 0; i < n / 2; i++) { Z x = M.mod(p * o[i]); r[i] = M.mod(e[i] + x); r[i + n / 2] = M.mod(e[i] - x); p = M.mod(p * w); }
    return r;
}
static Z evalAt(const std::vector<Z> &a, const Z &x) { Z r = 0; for (size_t i = a.size(); i-- > 0;) r = M.mod(r * x + a[i]); return r; }

struct Vec {            // n elements with unmapped memory on one side
    Guarded g; size_t n; E1 *e;
    Vec(const std::vector<Z> &v, bool atEnd) : g(v.size() * sizeof(E1), atEnd), n(v.size()), e((E1 *)g.p) { for (size_t i = 0; i < n; i++) put(e[i], v[i]); }
    void load(const std::vector<Z> &v) { for (size_t i = 0; i < n; i++) put(e[i], v[i]); }
    Z at(size_t i) const { Z v; if (!get1(e[i], v)) pbt::fail("element %zu of the result is not below the modulus", i); return v; }
};
static std::vector<Z> genVec(pbt::Tape &t, size_t n, const char **cls) {
    std::vector<Z> v(n, Z(0));
    switch (t.weighted({3, 2, 2, 4, 2})) {
    case 0: *cls = "drawn"; if (n <= 64) { for (auto &x : v) x = fm::genValue(t, M); break; }      // else fall through: expanded from one draw
    case 3: { *cls = "uniform"; uint64_t s = t.u64(); for (auto &x : v) { uint64_t l[16]; for (auto &y : l) y = pbt::splitmix(s); x = M.mod(fm::fromLimbs(l, M.n64)); } break; }
    case 1: *cls = "one nonzero"; v[t.below(n)] = 1 + fm::genValue(t, M); for (auto &x : v) x = M.mod(x); break;
    case 2: { *cls = "constant"; Z c = fm::genValue(t, M); for (auto &x : v) x = c; break; }
    default: { *cls = "powers"; Z c = fm::genValue(t, M), p = 1; for (auto &x : v) { x = p; p = M.mod(p * c); } break; }
    }
    return v;
}
static uint64_t genMax(pbt::Tape &t, int &pow) {
    int top = std::min(adicity(), MAXPOW);
#ifdef LARGE
    pow = top > 12 ? 12 + (int)t.below(top - 11) : top;
#else
    pow = t.coin(1, 12) ? top : (int)t.below(std::min(top, 9) + 1);
#endif
    uint64_t m = 1ull << pow;
    return t.coin(1, 3) ? m + t.below(m) : m;       // not a power of two: its floor counts
}
static bool tooBig(uint64_t max) {
    try { Fft f(max); } catch (std::range_error &) { return true; } catch (std::range_error *) { return true; } catch (std::bad_alloc &) { return false; }
    return false;
}

int main(int argc, char **argv) {
    pbt::addProp("C19/roots", 3, [](pbt::Tape &t) {
        int pow; uint64_t max = genMax(t, pow);
        unsigned threads = (unsigned)t.below(10);
        t.label("domain 2^%d", pow); t.note("roots of a domain of %llu", (unsigned long long)max);
        t.nontrivial();
        std::unique_ptr<Fft> f(t.coin() ? new Fft(max) : new Fft(max, threads));
        int s = std::max(pow, std::min(1, adicity()));
        for (int d = 0; d <= s; d++) {
            Z w = rootOf(d), p = 1, v;
            size_t n = 1ull << d;
            for (size_t i = 0; i < n; i++) {
                PBT_CHECK(get1(f->root(d, i), v), "root(%d, %zu) is not below the modulus", d, i);
                PBT_CHECK(v == p, "root(%d, %zu) is %s, expected %s", d, i, fm::hex(v).c_str(), fm::hex(p).c_str());
                p = M.mod(p * w);
            }
            if (p != 1 || (d && M.powm(w, Z(1) << (d - 1)) == 1)) pbt::fail("the model's root is no root");
        }
    });
    pbt::addProp("C19/limits", 2, [](pbt::Tape &t) {
        int a = adicity();
        if (t.coin()) {
            uint64_t n = t.coin(1, 3) ? t.u64() : t.u64() >> t.below(64); if (!n) n = 1;
            static Fft f(2);
            unsigned want = 0; for (uint64_t x = n; x > 1; x >>= 1) want++;
            t.label("log2"); t.note("log2(%llu)", (unsigned long long)n); if (n > 1) t.nontrivial();
            unsigned got = f.log2(n);
            PBT_CHECK(got == want, "log2(%llu) is %u", (unsigned long long)n, got);
            return;
        }
        int pow = a > 60 ? 61 : std::min(62, a + 1 + (int)t.below(4));
        if (pow <= a || pow < 2) throw pbt::Discard();
        uint64_t max = (1ull << pow) + (t.coin(1, 3) ? t.below(1ull << pow) : 0);
        t.label("too big by %d", pow - a); t.note("domain of %llu over a field with 2-adicity %d", (unsigned long long)max, a); t.nontrivial();
        PBT_CHECK(tooBig(max), "a domain of %llu is accepted although the field's roots of unity end at 2^%d", (unsigned long long)max, a);
    });
    // one object, transforms of drawn sizes on the same data
    pbt::addProp("C19/transform", 10, [](pbt::Tape &t) {
        int pow; uint64_t max = genMax(t, pow);
        Fft f(max);
        size_t rounds = 1 + t.below(3);
        for (size_t k = 0; k < rounds; k++) {
            int d = t.coin(1, 3) || (pow > 12 && t.coin(2, 3)) ? pow : (int)t.below(pow + 1);
            size_t n = 1ull << d; const char *cls;
            std::vector<Z> a = genVec(t, n, &cls);
            Vec v(a, t.coin(2, 3));
            bool inv = t.coin();
            t.label("%s of 2^%d", inv ? "ifft" : "fft", d); t.label("%s", cls);
            t.note("%s%s of 2^%d %s elements with an object for %llu", k ? " then " : "", inv ? "ifft" : "fft", d, cls, (unsigned long long)max);
            if (n <= 4) for (auto &x : a) t.note(" %s", fm::hex(x).c_str());
            if (n > 1) t.nontrivial();
            Z w = rootOf(d);
            std::vector<Z> want = transform(a, inv ? M.inv(w) : w);
            Z ni = M.inv(Z((unsigned long)n));
            if (inv) f.ifft(v.e, n); else f.fft(v.e, n);
            for (size_t i = 0; i < n; i++) {
                Z x = inv ? M.mod(want[i] * ni) : want[i], y = v.at(i);
                PBT_CHECK(x == y, "%s: output %zu of %zu is %s, expected %s", inv ? "ifft" : "fft", i, n, fm::hex(y).c_str(), fm::hex(x).c_str());
            }
            size_t i = t.below(n);                   // the definition itself, at one place
            if (!inv) PBT_CHECK(evalAt(a, M.powm(w, Z((unsigned long)i))) == v.at(i), "output %zu is not the polynomial's value at w^%zu", i, i);
            if (t.coin()) {                          // and back
                if (inv) f.fft(v.e, n); else f.ifft(v.e, n);
                for (size_t i = 0; i < n; i++) PBT_CHECK(v.at(i) == a[i], "there and back again: element %zu of %zu is %s, was %s", i, n, fm::hex(v.at(i)).c_str(), fm::hex(a[i]).c_str());
            }
        }
    });
    return pbt::mainDriver(argc, argv);
}
