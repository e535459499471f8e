// C26: repeated work does not make the process grow: every allocation, descriptor and file mapping an operation makes
// is given back once it has returned or thrown and its objects are destroyed.
#include "ext.hpp"
#include "misc.hpp"
#include "multiexp.hpp"
#include "msm.hpp"
#include "fft.hpp"
#include "naf.hpp"
#include "splitparstr.hpp"
#include "binfile_utils.hpp"
#include "zkey_utils.hpp"
#include "wtns_utils.hpp"
#include <atomic>
#include <dirent.h>
#include <sys/stat.h>

// every allocation of the process, the C++ library's and GMP's included, passes here
static std::atomic<long> blocks(0);
extern "C" {
void *__libc_malloc(size_t); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); void *__libc_memalign(size_t, size_t); void __libc_free(void *);
void *malloc(size_t n) { void *p = __libc_malloc(n); if (p) blocks++; return p; }
void *calloc(size_t a, size_t b) { void *p = __libc_calloc(a, b); if (p) blocks++; return p; }
void *realloc(void *o, size_t n) { void *p = __libc_realloc(o, n); if (!o && p) blocks++; if (o && !p && !n) blocks--; return p; }
void *memalign(size_t a, size_t n) { void *p = __libc_memalign(a, n); if (p) blocks++; return p; }
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **o, size_t a, size_t n) { void *p = memalign(a, n); if (!p) return 12; *o = p; return 0; }
void free(void *p) { if (p) { blocks--; __libc_free(p); } }
int get_nprocs(void) noexcept { const char *e = getenv("PBT_NPROCS"); return e ? atoi(e) : 4; }
}
void *operator new[](size_t n) { if (n > (1ull << 30)) throw std::bad_alloc(); return ::operator new(n); }      // a domain that is too big
using AltBn128::Engine; using BinFileUtils::BinFile;
static std::string scratch() { const char *e = getenv("PBT_TMP"); return e ? e : "/tmp"; }
static long fds() { long n = 0; DIR *d = opendir("/proc/self/fd"); while (d && readdir(d)) n++; if (d) closedir(d); return n; }
static long maps() { long n = 0; FILE *f = fopen("/proc/self/maps", "r"); char b[4096]; while (f && fgets(b, sizeof b, f)) if (strstr(b, "leakfile")) n++; if (f) fclose(f); return n; }
struct Held { long b, f, m; };
static Held held() { long b = blocks; Held h = {b, fds(), maps()}; return h; }

// The work twice (what it sets up once for the process is set up then) and five times more: growth in every one is a leak.
static void repeat(const std::function<void()> &work, const char *what) {
    work(); work();
    long minb = 1 << 30, minf = minb, minm = minb;
    for (int i = 0; i < 5; i++) {
        Held a = held(); work(); Held b = held();
        minb = std::min(minb, b.b - a.b); minf = std::min(minf, b.f - a.f); minm = std::min(minm, b.m - a.m);
    }
    PBT_CHECK(minb <= 0, "%s: every repetition leaves %ld blocks of memory behind", what, minb);
    PBT_CHECK(minf <= 0, "%s: every repetition leaves %ld file descriptors open", what, minf);
    PBT_CHECK(minm <= 0, "%s: every repetition leaves %ld file mappings behind", what, minm);
}
template <class F> static bool quietly(F f) {          // what is thrown as a pointer belongs to the one who catches it
    try { f(); } catch (std::exception &) { return true; } catch (std::exception *e) { delete e; return true; }
    return false;
}

// ---- fields, text, curves ---------------------------------------------------------------------------------------------
static const fm::Model MR(RHEX);
static std::string someText(pbt::Tape &t, const Z &q) {
    Z v = fm::genValue(t, M);
    switch (t.weighted({4, 2, 2, 1, 1, 1})) {
    case 0: return v.get_str();
    case 1: return Z(v * q + t.below(100)).get_str();
    case 2: return "-" + v.get_str();
    case 3: return "";
    case 4: return "x" + v.get_str(16);
    default: return v.get_str() + "z";
    }
}
static void fields(pbt::Tape &t) {
    std::string a = someText(t, MR.q), b = someText(t, MR.q), hex = Z(fm::genValue(t, MR)).get_str(16), tuple = t.coin() ? a + "," + b : "((" + a + "),(" + b + "))";
    Z v = fm::genValue(t, MR), w = fm::genValue2(t, MR, v); if (v == 0) v = 1; if (w == 0) w = 2; size_t kind = t.below(6); size_t len = 1 + t.below(40); bool assign = t.coin();
    std::vector<uint8_t> sc = genScalar(t, len);
    static const char *names[] = {"tagged text", "tagged arithmetic", "raw text", "raw arithmetic", "extension text", "tower"};
    t.label("%s", names[kind]); t.note("%s with %s, %s, %s, %s", names[kind], a.c_str(), b.c_str(), fm::hex(v).c_str(), fm::hex(w).c_str()); if (v > 1 && w > 1) t.nontrivial();
    RawFr::Element ev, ew; Engine &E = Engine::engine;
    { mpz_t m; mpz_init_set(m, v.get_mpz_t()); E.fr.fromMpz(ev, m); mpz_set(m, w.get_mpz_t()); E.fr.fromMpz(ew, m); mpz_clear(m); }
    FrElement tv, tw; memset((void *)&tv, 0, sizeof tv); tw = tv; Fr_str2element(&tv, v.get_str().c_str()); Fr_str2element(&tw, w.get_str().c_str());
    repeat([&] {
        FrElement r; memset((void *)&r, 0, sizeof r); RawFr::Element x;
        switch (kind) {
        case 0: quietly([&] { Fr_str2element(&r, a.c_str()); }); quietly([&] { Fr_str2element(&r, b.c_str()); }); { char *s = Fr_element2str(&tv); free(s); s = Fr_element2str(&tw); free(s); } break;
        case 1: Fr_mul(&r, &tv, &tw); Fr_inv(&r, &tv); Fr_div(&r, &tv, &tw); Fr_pow(&r, &tv, &tw); Fr_mod(&r, &tv, &tw); Fr_idiv(&r, &tv, &tw); Fr_shl(&r, &tv, &tw); Fr_band(&r, &tv, &tw); Fr_toLongNormal(&r, &tv); Fr_toMontgomery(&r, &tw); { mpz_t m; mpz_init(m); E.fr.toMpz(m, ev); E.fr.fromMpz(x, m); mpz_clear(m); } break;
        case 2: quietly([&] { E.fr.fromString(x, a); }); quietly([&] { E.fr.fromString(x, hex, 16); }); { std::string s = E.fr.toString(ev), u = E.fr.toString(ew, 16); } { uint8_t be[32]; E.fr.toRprBE(ev, be, 32); E.fr.fromRprBE(x, be, 32); } { mpz_t m; mpz_init(m); E.fr.toMpz(m, ev); E.fr.fromMpz(x, m); mpz_clear(m); } break;
        case 3: E.fr.inv(x, ev); E.fr.div(x, ev, ew); E.fr.exp(x, ev, sc.data(), (unsigned)len); E.fr.set(x, -7); E.fr.fromUI(x, 1ul << 63); { RawFr own; own.mul(x, ev, ew); } break;
        case 4: { quietly([&] { auto p = splitParStr(tuple); }); E2 e, o; quietly([&] { E.f2.fromString(e, tuple); E.f2.mul(o, e, e); std::string s = E.f2.toString(o); }); quietly([&] { F2Field<RawFq> own("-1"); own.square(o, o); }); break; }
        default: { Engine::F12::Element p, q; E.f12.copy(p, E.f12.one()); Engine::F6::Element c; E.f6.copy(c, E.f6.one()); E.f6.add(c, c, c); memcpy(&p, &c, sizeof c); E.f12.inv(q, p); E.f12.mul(q, q, p); E.f12.exp(q, p, sc.data(), (unsigned)len); E.f12.Frobenius(q, p); std::string s = E.f12.toString(q), u = E.f6.toString(c); break; }
        }
        (void)assign;
    }, names[kind]);
}
template <class BF> static void curves(pbt::Tape &t, BF &F, Curve<BF> &C) {
    typedef typename Curve<BF>::Point P; typedef typename Curve<BF>::PointAffine A;
    size_t size = t.coin(1, 4) ? 1 + t.below(70) : 32, n; switch (t.weighted({4, 8, 4, 1})) { case 0: n = t.below(3); break; case 1: n = 1 + t.below(24); break; case 2: n = 1 + t.below(100); break; default: n = 1 + t.below(500); }
    size_t kind = t.weighted({2, 2, 3, 2, 3, 1, 1}), shorter = 1 + t.below(30);
    static const char *names[] = {"scalar multiplication", "curve text", "multiexp", "multiexp of columns", "msm", "curve of its own", "NAF"};
    std::vector<uint8_t> s(size * std::max<size_t>(n, 1)); uint64_t seed = t.u64(); for (auto &x : s) x = (uint8_t)pbt::splitmix(seed); bool zeros = t.coin(1, 5); if (zeros) std::fill(s.begin(), s.end(), 0);
    unsigned th = (unsigned)t.below(9); uint64_t nx = 1 + t.below(6); std::vector<uint64_t> x(nx); for (auto &y : x) y = t.below(n + 2);
    P one = C.one(); std::vector<A> bases(std::max<size_t>(n, 1)); { P p; C.copy(p, one); for (size_t i = 0; i < bases.size(); i++) { if (i % 9 == 8) C.copy(bases[i], C.zeroAffine()); else C.copy(bases[i], p); if (i < shorter) C.add(p, p, one); } }
    t.label("%s", names[kind]); t.note("%s of %zu points, %zu bytes each%s, threads %u", names[kind], n, size, zeros ? " (zero)" : "", th); if (n > 1) t.nontrivial();
    ParallelMultiexp<Curve<BF>> keep(C); MSM<Curve<BF>, BF> keepM(C); bool own = t.coin();
    repeat([&] {
        P r;
        switch (kind) {
        case 0: C.mulByScalar(r, one, s.data(), (unsigned)size); C.mulByScalar(r, bases[0], s.data(), (unsigned)size); break;
        case 1: { std::string a = C.toString(one), b = C.toString(one, 16), c = C.toString(C.zero()); break; }
        case 2: if (own) C.multiMulByScalar(r, bases.data(), s.data(), (unsigned)size, (unsigned)n, th); else keep.multiexp(r, bases.data(), s.data(), size, n, th); break;
        case 3: if (own) C.multiMulByScalar(r, bases.data(), s.data(), (unsigned)size, (unsigned)n, (uint32_t)nx, x.data(), th); else keep.multiexp(r, bases.data(), s.data(), size, n, nx, x.data(), th); break;
        case 4: if (own) C.multiMulByScalarMSM(r, bases.data(), s.data(), (unsigned)size, (unsigned)n, th); else keepM.run(r, bases.data(), s.data(), size, n, th); break;
        case 5: { auto txt = [&](typename BF::Element &e) { return F.toString(e); }; Curve<BF> c(F, txt(C.a()), txt(C.b()), txt(C.oneAffine().x), txt(C.oneAffine().y)); c.dbl(r, one); break; }
        default: { std::unique_ptr<uint8_t[]> naf(new uint8_t[(size + 2) * 8]); buildNaf(naf.get(), s.data(), (unsigned)size); break; }
        }
    }, names[kind]);
}
static void objects(pbt::Tape &t) {
    size_t kind = t.weighted({3, 3, 2, 2}); unsigned pw = (unsigned)t.below(9), by = 1 + (unsigned)t.below(3), th = 1 + (unsigned)t.below(8), calls = (unsigned)t.below(5); int n = (int)t.below(40); bool inv = t.coin();
    static const char *names[] = {"FFT", "thread pool", "FFT of too big a domain", "engine"};
    t.label("%s", names[kind]); t.note("%s: 2^%u, threads %u, %u calls over %d", names[kind], pw, th, calls, n); t.nontrivial();
    std::vector<RawFr::Element> v((size_t)1 << pw); for (auto &e : v) Engine::engine.fr.copy(e, Engine::engine.fr.one());
    repeat([&] {
        switch (kind) {
        case 0: { FFT<RawFr> f((1ull << pw) * by, th); if (inv) f.ifft(v.data(), v.size()); else f.fft(v.data(), v.size()); break; }
        case 1: { ThreadPool p(th); std::atomic<int> c(0); for (unsigned i = 0; i < calls; i++) { if (i & 1) p.parallelFor(0, n, [&](int b, int e, int) { c += e - b; }); else p.parallelBlock([&](int, int) { c++; }); } break; }
        case 2: quietly([&] { FFT<RawFr> f((1ull << 28) << (1 + by)); }); break;
        default: { std::unique_ptr<Engine> e(new Engine); Engine::G1Point r; e->g1.dbl(r, e->g1.one()); break; }
        }
    }, names[kind]);
}

// ---- files --------------------------------------------------------------------------------------------------------------
typedef std::vector<uint8_t> Bytes;
static void u32(Bytes &b, uint32_t v) { for (int i = 0; i < 4; i++) b.push_back((uint8_t)(v >> (8 * i))); }
static void u64(Bytes &b, uint64_t v) { for (int i = 0; i < 8; i++) b.push_back((uint8_t)(v >> (8 * i))); }
static void section(Bytes &b, uint32_t id, const Bytes &d) { u32(b, id); u64(b, d.size()); b.insert(b.end(), d.begin(), d.end()); }
static Bytes zkey(bool wtns) {
    Bytes b; const char *ty = wtns ? "wtns" : "zkey"; b.assign(ty, ty + 4); u32(b, wtns ? 2 : 1);
    Bytes s, r(32, 7), q(32, 9);
    if (wtns) { u32(b, 2); u32(s, 32); s.insert(s.end(), r.begin(), r.end()); u32(s, 3); section(b, 1, s); section(b, 2, Bytes(96, 1)); return b; }
    u32(b, 3); u32(s, 1); section(b, 1, s); s.clear();
    u32(s, 32); s.insert(s.end(), q.begin(), q.end()); u32(s, 32); s.insert(s.end(), r.begin(), r.end()); u32(s, 5); u32(s, 2); u32(s, 8); s.insert(s.end(), 32 * (3 * 2 + 3 * 4), 3); section(b, 2, s);
    section(b, 4, Bytes(4 + 44 * 3, 2));
    return b;
}
static void files(pbt::Tape &t) {
    bool wtns = t.coin(), disk = t.coin(); Bytes b = zkey(wtns); size_t fault = t.weighted({4, 3, 4, 1, 1, 1, 1}), cut = 0; std::string type = wtns ? "wtns" : "zkey"; uint32_t max = 2;
    static const char *names[] = {"well formed", "truncated", "bytes changed", "another type", "too new", "a directory", "no such file"};
    if (fault >= 5) disk = true;
    if (fault == 1) { cut = t.below(b.size()); b.resize(cut); }
    if (fault == 2) for (uint64_t i = 1 + t.below(3); i--;) b[t.coin() ? 4 + t.below(24) : t.below(b.size())] ^= (uint8_t)(1 + t.below(255));
    if (fault == 3) type = "r1cs";
    if (fault == 4) max = 0;
    t.label("%s, %s", names[fault], disk ? "disk" : "memory"); t.note("%s file, %s, cut %zu, from %s", type.c_str(), names[fault], cut, disk ? "disk" : "memory"); t.nontrivial();
    std::string dir = scratch() + "/leakfileXXXXXX"; if (!mkdtemp(&dir[0])) throw pbt::Discard();
    std::string name = dir + "/leakfile"; if (disk && fault < 5) { FILE *f = fopen(name.c_str(), "wb"); if (f) { if (b.size()) fwrite(b.data(), 1, b.size(), f); fclose(f); } }
    struct Rm { std::string d, n; ~Rm() { unlink(n.c_str()); rmdir(d.c_str()); } } rm{dir, name};
    if (fault == 5) name = dir;
    size_t reads = t.below(6); std::vector<uint32_t> ids; for (size_t i = 0; i < reads; i++) ids.push_back((uint32_t)t.below(6));
    int header = (int)t.below(3); bool opener = t.coin();
    repeat([&] {
        quietly([&] {
            std::unique_ptr<BinFile> f = disk ? (opener ? BinFileUtils::openExisting(name, type, max) : std::unique_ptr<BinFile>(new BinFile(name, type, max))) : std::unique_ptr<BinFile>(new BinFile(b.data(), b.size(), type, max));
            for (uint32_t id : ids) quietly([&] { f->getSectionSize(id); f->startReadSection(id); f->readU32LE(); f->read(10); f->endReadSection(id & 1); });
            if (header) quietly([&] { if ((header == 1) == wtns) auto h = WtnsUtils::loadHeader(f.get()); else auto h = ZKeyUtils::loadHeader(f.get()); });
        });
    }, names[fault]);
}
int main(int argc, char **argv) {
    pbt::addProp("C26/fields", 3, fields);
    pbt::addProp("C26/G1", 4, [](pbt::Tape &t) { curves(t, Engine::engine.f1, Engine::engine.g1); });
    pbt::addProp("C26/G2", 2, [](pbt::Tape &t) { curves(t, Engine::engine.f2, Engine::engine.g2); });
    pbt::addProp("C26/objects", 3, objects);
    pbt::addProp("C26/files", 4, files);
    return pbt::mainDriver(argc, argv);
}
