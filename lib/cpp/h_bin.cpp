// C21: BinFile against a model of the format.  C22: the zkey and wtns headers.
#include "pbt.hpp"
#include <gmpxx.h>
#include <memory>
#include <dirent.h>
#include <stdexcept>
#include <system_error>
#include "binfile_utils.hpp"
#include "zkey_utils.hpp"
#include "wtns_utils.hpp"
#ifdef HUGE_FILES
#include <sys/mman.h>
#include "thread_utils.hpp"
#endif
using BinFileUtils::BinFile;
typedef std::vector<uint8_t> Bytes;
typedef mpz_class Z;

template <class F> bool throws(F f, std::string *what = nullptr) {
    try { f(); } catch (std::exception &e) { if (what) *what = e.what(); return true; } catch (std::exception *e) { if (what) *what = e->what(); delete e; return true; }
    return false;
}
static void u32(Bytes &b, uint32_t v) { for (int i = 0; i < 4; i++) b.push_back((uint8_t)(v >> (8 * i))); }
static void u64(Bytes &b, uint64_t v) { for (int i = 0; i < 8; i++) b.push_back((uint8_t)(v >> (8 * i))); }
static uint32_t r32(const Bytes &b, size_t p) { uint32_t v = 0; for (int i = 0; i < 4; i++) v |= (uint32_t)b[p + i] << (8 * i); return v; }
static uint64_t r64(const Bytes &b, size_t p) { return r32(b, p) | (uint64_t)r32(b, p + 4) << 32; }

struct Sec { uint32_t id; Bytes data; };
struct File { std::string type; uint32_t version; std::vector<Sec> secs; };
static Bytes write(const File &f) {
    Bytes b(f.type.begin(), f.type.end()); u32(b, f.version); u32(b, (uint32_t)f.secs.size());
    for (auto &s : f.secs) { u32(b, s.id); u64(b, s.data.size()); b.insert(b.end(), s.data.begin(), s.data.end()); }
    return b;
}
// what a reader that stays inside the file can make of the bytes
struct Parsed { bool ok = false; std::string type; uint32_t version = 0; std::map<uint32_t, std::vector<std::pair<size_t, size_t>>> secs; };
static Parsed parse(const Bytes &b) {
    Parsed p; size_t pos = 12;
    if (b.size() >= 4) p.type.assign(b.begin(), b.begin() + 4);
    if (b.size() < 12) return p;
    p.version = r32(b, 4);
    for (uint32_t n = r32(b, 8), i = 0; i < n; i++) {
        if (b.size() - pos < 12) return p;
        uint32_t id = r32(b, pos); uint64_t len = r64(b, pos + 4); pos += 12;
        if (len > b.size() - pos) return p;
        p.secs[id].push_back({pos, (size_t)len}); pos += len;
    }
    p.ok = true;
    return p;
}
static std::string tmpRoot() { const char *e = getenv("PBT_TMP"); return e ? e : "/tmp"; }      // the check's scratch directory
static int openFds() { int n = 0; DIR *d = opendir("/proc/self/fd"); while (d && readdir(d)) n++; if (d) closedir(d); return n; }
// the file in memory (a buffer of exactly its size, overwritten afterwards) or on disk
static std::unique_ptr<BinFile> open(pbt::Tape &t, const Bytes &b, const std::string &type, uint32_t maxVersion, bool disk) {
    if (!disk) {
        std::unique_ptr<uint8_t[]> m(new uint8_t[b.size()]); if (b.size()) memcpy(m.get(), b.data(), b.size());
        std::unique_ptr<BinFile> f(new BinFile(m.get(), b.size(), type, maxVersion));
        memset(m.get(), 0xdb, b.size());
        return f;
    }
    std::string dir = tmpRoot() + "/binXXXXXX"; if (!mkdtemp(&dir[0])) throw pbt::Discard();
    std::string n = dir + "/f";
    struct Rm { std::string d, n; ~Rm() { unlink(n.c_str()); rmdir(d.c_str()); } } rm{dir, n};
    FILE *o = fopen(n.c_str(), "wb"); if (!o) throw pbt::Discard();
    if (b.size()) fwrite(b.data(), 1, b.size(), o);
    fclose(o);
    int before = openFds();
    std::unique_ptr<BinFile> f = t.coin() ? BinFileUtils::openExisting(n, type, maxVersion) : std::unique_ptr<BinFile>(new BinFile(n, type, maxVersion));
    PBT_CHECK(openFds() == before, "opening a file left a descriptor open");
    return f;
}
static uint32_t genId(pbt::Tape &t) { switch (t.weighted({8, 2, 1, 1})) { case 0: return (uint32_t)t.below(5); case 1: return (uint32_t)t.below(30); case 2: return 0xffffffffu - (uint32_t)t.below(3); default: return (uint32_t)t.below(1ull << 32); } }
static Bytes genBytes(pbt::Tape &t, size_t n) { Bytes b(n); if (n <= 32) for (auto &x : b) x = (uint8_t)t.below(256); else { uint64_t s = t.u64(); for (auto &x : b) x = (uint8_t)pbt::splitmix(s); } return b; }
static File genFile(pbt::Tape &t) {
    File f; static const char *types[] = {"zkey", "wtns", "r1cs", "ptau"};
    f.type = t.coin(1, 8) ? std::string((const char *)genBytes(t, 4).data(), 4) : types[t.below(4)];
    f.version = t.coin(1, 6) ? (uint32_t)t.below(1ull << 32) : (uint32_t)t.below(4);
    size_t n = t.below(t.coin(1, 6) ? 20 : 6);
    if (t.coin(1, 300)) {                                // more sections than a byte or a 16-bit word counts, most of them small
        n = (t.coin(1, 4) ? 65530 : 250) + t.below(20); uint64_t r = t.u64(), one = t.below(3);
        for (size_t i = 0; i < n; i++) f.secs.push_back({one ? (uint32_t)(one - 1) : (uint32_t)(pbt::splitmix(r) % 300), Bytes(pbt::splitmix(r) % 6, (uint8_t)i)});
        return f;
    }
    for (size_t i = 0; i < n; i++) {
        size_t len; switch (t.weighted({2, 4, 2, 1})) { case 0: len = 0; break; case 1: len = t.below(20); break; case 2: len = 8 * t.below(16); break; default: len = t.below(t.coin(1, 8) ? 200000 : 9000); }
        f.secs.push_back({genId(t), genBytes(t, len)});
    }
    return f;
}
static std::string show(const File &f) { std::string s; char b[64]; if (f.secs.size() > 40) return " " + std::to_string(f.secs.size()) + " sections"; for (auto &x : f.secs) { snprintf(b, sizeof b, " %u:%zu", x.id, x.data.size()); s += b; } return s; }

// the sections of an opened file are those of the model, byte for byte
static void sections(BinFile &f, const Bytes &b, const Parsed &p) {
    for (auto &s : p.secs) {
        for (size_t i = 0; i < s.second.size(); i++) {
            PBT_CHECK(f.getSectionSize(s.first, (uint32_t)i) == s.second[i].second, "section %u,%zu has size %llu, expected %zu", s.first, i, (unsigned long long)f.getSectionSize(s.first, (uint32_t)i), s.second[i].second);
            PBT_CHECK(!memcmp(f.getSectionData(s.first, (uint32_t)i), b.data() + s.second[i].first, s.second[i].second), "section %u,%zu does not hold the file's bytes", s.first, i);
        }
        uint32_t n = (uint32_t)s.second.size();
        PBT_CHECK(throws([&] { f.getSectionSize(s.first, n); }) && throws([&] { f.getSectionData(s.first, n); }) && throws([&] { f.startReadSection(s.first, n); }), "section %u,%u does not exist and is accepted", s.first, n);
    }
    for (uint32_t id : {0u, 1u, 2u, 3u, 4u, 5u, 77777u, 0xfffffffeu, 0xffffffffu}) if (!p.secs.count(id))
        PBT_CHECK(throws([&] { f.getSectionSize(id); }) && throws([&] { f.getSectionData(id); }) && throws([&] { f.startReadSection(id); }), "section %u does not exist and is accepted", id);
}
static void valid(pbt::Tape &t) {
    File f = genFile(t); Bytes b = write(f); Parsed p = parse(b);
    bool disk = t.coin(1, 3);
    uint32_t max = t.coin() ? f.version : f.version + (uint32_t)t.below(std::min<uint64_t>(5, 0xffffffffull - f.version + 1));
    t.note("%s %s v%u (max %u):%s;", disk ? "disk" : "memory", pbt::jsonEsc(f.type).c_str(), f.version, max, show(f).c_str());
    t.label("%s, %zu sections", disk ? "disk" : "memory", std::min<size_t>(f.secs.size(), 6));
    if (t.coin(1, 6)) {                                  // another type or a version that is too new
        std::string type = f.type; uint32_t m = max;
        if (t.coin() || f.version == 0) { size_t i = t.below(4); type[i] = (char)(type[i] ^ (1 << t.below(8))); } else m = (uint32_t)t.below(f.version);
        t.label("rejected"); t.note(" opened as %s with max %u", pbt::jsonEsc(type).c_str(), m); t.nontrivial();
        PBT_CHECK(throws([&] { open(t, b, type, m, disk); }), "a file of another type or a newer version is accepted");
        return;
    }
    std::unique_ptr<BinFile> h = open(t, b, f.type, max, disk);
    sections(*h, b, p);
    // a reading session: the cursor of the model is the position in the file
    std::vector<uint32_t> ids; for (auto &s : p.secs) ids.push_back(s.first);
    size_t n = t.below(30), reads = 0; bool reading = false; size_t pos = 0, from = 0, len = 0;
    for (size_t i = 0; i < n; i++) {
        if (!reading || t.coin(1, 8)) {
            bool good = !ids.empty() && !t.coin(1, 6);
            uint32_t id = good ? t.pick(ids) : genId(t), k = 0;
            if (p.secs.count(id)) k = (uint32_t)t.below(p.secs[id].size() + (good ? 0 : 1));
            good = p.secs.count(id) && k < p.secs[id].size();
            t.note(" start(%u,%u)", id, k);
            bool th = throws([&] { if (k == 0 && t.coin()) h->startReadSection(id); else h->startReadSection(id, k); });
            PBT_CHECK(th == (!good || reading), "step %zu: startReadSection(%u, %u) %s", i, id, k, th ? "is rejected" : reading ? "is accepted while another section is being read" : "is accepted");
            if (!th) { reading = true; from = pos = p.secs[id][k].first; len = p.secs[id][k].second; }
            continue;
        }
        size_t left = from + len - pos;
        int op = (int)t.weighted({4, 3, 4, 3, 2});
        if (op == 0 && left < 4) op = 2; if (op == 1 && left < 8) op = 2;
        if (op <= 2) {
            reads++;
            if (op == 0) { uint32_t v = h->readU32LE(); t.note(" u32"); PBT_CHECK(v == r32(b, pos), "step %zu: readU32LE at %zu gives %x, the file has %x", i, pos, v, r32(b, pos)); pos += 4; }
            else if (op == 1) { uint64_t v = h->readU64LE(); t.note(" u64"); PBT_CHECK(v == r64(b, pos), "step %zu: readU64LE at %zu gives %llx, the file has %llx", i, pos, (unsigned long long)v, (unsigned long long)r64(b, pos)); pos += 8; }
            else { size_t k = t.coin(1, 3) ? left : t.below(left + 1); void *q = h->read(k); t.note(" read(%zu)", k); PBT_CHECK(!memcmp(q, b.data() + pos, k), "step %zu: read(%zu) at %zu does not give the file's bytes", i, k, pos); pos += k; }
        } else if (op == 3) {
            bool check = t.coin(3, 4); t.note(" end(%d)", check);
            bool th = throws([&] { if (check && t.coin()) h->endReadSection(); else h->endReadSection(check); });
            bool want = check && pos != from + len;
            PBT_CHECK(th == want, "step %zu: endReadSection(%d) with %zu of %zu bytes read %s", i, check, pos - from, len, th ? "is rejected" : "is accepted");
            if (!th) reading = false;
        } else {
            uint64_t over = b.size() - pos + 1 + (t.coin() ? t.below(100) : 0); if (t.coin(1, 6)) over = ~0ull - t.below(50);
            t.note(" read(%llu) past the end", (unsigned long long)over);
            PBT_CHECK(throws([&] { h->read(over); }), "step %zu: read(%llu) past the end of the file is accepted", i, (unsigned long long)over);
        }
    }
    if (reads) t.nontrivial();
    sections(*h, b, p);
}
static void malformed(pbt::Tape &t) {
    File f = genFile(t); Bytes b = write(f); size_t total = b.size(); const char *how;
    switch (t.weighted({6, 4, 3, 2, 3, 2})) {
    case 0: how = "truncated"; b.resize(t.coin(1, 3) ? t.below(std::min<size_t>(b.size(), 40) + 1) : t.below(b.size() + 1)); break;
    case 1: {                                   // one length field
        how = "length changed"; if (f.secs.empty()) throw pbt::Discard();
        size_t k = t.below(f.secs.size()), pos = 12; for (size_t i = 0; i < k; i++) pos += 12 + f.secs[i].data.size();
        uint64_t old = f.secs[k].data.size(), v;
        switch (t.below(7)) { case 0: v = old + 1 + t.below(16); break; case 1: v = b.size() - pos - 12; break; case 2: v = b.size() - pos - 11; break; case 3: v = ~0ull - t.below(40); break; case 4: v = (uint64_t)0 - (pos + 12 - t.below(8)); break; case 5: v = old + ((1 + t.below(9)) << 32); break; default: v = t.u64() >> t.below(64); }
        for (int i = 0; i < 8; i++) b[pos + 4 + i] = (uint8_t)(v >> (8 * i));
        break; }
    case 2: { how = "section count changed"; uint32_t v = (uint32_t)f.secs.size(); v = t.coin() ? v + 1 + (uint32_t)t.below(3) : t.coin() ? 0xffffffffu - (uint32_t)t.below(3) : (uint32_t)t.below(v + 1); for (int i = 0; i < 4; i++) b[8 + i] = (uint8_t)(v >> (8 * i)); break; }
    case 3: how = "bytes appended"; { Bytes x = genBytes(t, 1 + t.below(20)); b.insert(b.end(), x.begin(), x.end()); } break;
    case 4: how = "bytes changed"; for (size_t k = 1 + t.below(4); k--;) b[4 + t.below(b.size() - 4)] = (uint8_t)t.below(256); break;
    default: how = "random"; { Bytes x = genBytes(t, t.below(80)); size_t keep = t.below(13); b.resize(std::min(keep, b.size())); b.insert(b.end(), x.begin(), x.end()); } break;
    }
    Parsed p = parse(b);
    bool disk = t.coin(1, 4);
    bool ok = p.ok && p.type == f.type;
    t.label("%s, %s%s", how, ok ? "still a file" : "no file", disk ? ", disk" : "");
    t.note("%s %s:%s, %zu of %zu bytes", disk ? "disk" : "memory", how, show(f).c_str(), b.size(), total);
    t.nontrivial();
    std::unique_ptr<BinFile> h;
    bool th = throws([&] { h = open(t, b, f.type, 0xffffffffu, disk); });
    PBT_CHECK(th == !ok, "a file that %s is %s", ok ? "is well formed" : "ends inside its own structure (or is of another type)", th ? "rejected" : "accepted");
    if (ok) {
        sections(*h, b, p);
        for (auto &s : p.secs) { h->startReadSection(s.first); size_t left = b.size() - s.second[0].first; PBT_CHECK(throws([&] { h->read(left + 1); }), "reading past the end of the file is accepted"); if (left < 8) PBT_CHECK(throws([&] { h->readU64LE(); }), "an 8 byte number past the end of the file is accepted"); if (left < 4) PBT_CHECK(throws([&] { h->readU32LE(); }), "a 4 byte number past the end of the file is accepted"); h->endReadSection(false); }
    }
}
static void missing(pbt::Tape &t) {
    size_t kind = t.below(4); t.nontrivial();
    static const char *what[] = {"a file that does not exist", "a file in a directory that does not exist", "a directory", "no name"};
    t.label("%s", what[kind]); t.note("%s", what[kind]);
    std::string n = tmpRoot();
    if (kind < 2) n += "/no_such_file_" + std::to_string(t.below(1u << 30)) + (kind ? "/f" : "");
    if (kind == 3) n = "";
    int before = openFds(); bool opener = t.coin();
    PBT_CHECK(throws([&] { if (opener) BinFileUtils::openExisting(n, "zkey", 1); else BinFile f(n, "zkey", 1); }), "%s is opened", what[kind]);
    PBT_CHECK(openFds() == before, "%s: a descriptor stays open", what[kind]);
}

// ---- headers --------------------------------------------------------------------------------------------------------
static Z num(const Bytes &b) { Z r; mpz_import(r.get_mpz_t(), b.size(), -1, 1, -1, 0, b.data()); return r; }
static Bytes primeBytes(pbt::Tape &t, size_t n) {
    Bytes b = genBytes(t, n);
    if (t.coin(1, 4)) std::fill(b.begin(), b.end(), 0xff);
    if (n && t.coin(1, 4)) b[n - 1] = (uint8_t)t.below(2);
    return b;
}
static void app(Bytes &a, const Bytes &b) { a.insert(a.end(), b.begin(), b.end()); }
static void shuffle(pbt::Tape &t, std::vector<Sec> &s) { for (size_t i = s.size(); i > 1; i--) std::swap(s[i - 1], s[i - 1 - t.below(i)]); }
static void extras(pbt::Tape &t, File &f, uint32_t from) { for (size_t k = t.below(4); k--;) f.secs.push_back({from + (uint32_t)t.below(8), genBytes(t, t.below(60))}); }

static void zkey(pbt::Tape &t) {
    File f; f.type = "zkey"; f.version = 1;
    uint32_t n8q = t.coin() ? 32 : 1 + (uint32_t)t.below(100), n8r = t.coin() ? 32 : (uint32_t)t.below(100), nVars = (uint32_t)t.below(1ull << 32);
    if (t.coin(1, 30)) n8q = 100 + (uint32_t)t.below(t.coin() ? 300 : 70000);
    if (t.coin(1, 30)) n8r = 100 + (uint32_t)t.below(t.coin() ? 300 : 70000);
    uint32_t nPublic = (uint32_t)(t.below(1ull << 32) >> t.below(32)), dom = 1u << t.below(32);
    Bytes q = primeBytes(t, n8q), r = primeBytes(t, n8r), pts[6]; static const int mul[] = {2, 2, 4, 4, 2, 4};
    for (int i = 0; i < 6; i++) pts[i] = genBytes(t, (size_t)n8q * mul[i]);
    int fault = (int)t.weighted({10, 2, 2, 2, 2, 2}); uint32_t protocol = 1;
    if (fault == 1) { protocol = (uint32_t)t.below(1ull << 32); if (protocol == 1) protocol = 2; }
    Bytes s1, s2, s4 = genBytes(t, t.coin() ? (12 + n8r) * t.below(30) : t.below(2000));
    u32(s1, protocol);
    u32(s2, n8q); app(s2, q); u32(s2, n8r); app(s2, r); u32(s2, nVars); u32(s2, nPublic); u32(s2, dom); for (auto &p : pts) app(s2, p);
    if (fault == 2) { if (t.coin()) s2.resize(s2.size() + 1 + t.below(9)); else s2.resize(s2.size() - 1 - t.below(std::min<size_t>(s2.size() - 1, 60))); }
    if (fault == 3) s1.resize(t.coin() ? t.below(4) : 5 + t.below(5));
    uint32_t miss = 0; if (fault == 4) { static const uint32_t m[] = {1, 2, 4}; miss = m[t.below(3)]; }
    if (miss != 1) f.secs.push_back({1, s1});
    if (miss != 2) f.secs.push_back({2, s2});
    if (miss != 4) f.secs.push_back({4, s4});
    extras(t, f, 5);
    shuffle(t, f.secs);
    if (miss != 4 && t.coin(1, 4)) f.secs.push_back({4, genBytes(t, t.below(60))});        // a second one does not count
    Bytes b = write(f);
    std::unique_ptr<BinFile> h = open(t, b, "zkey", 1, t.coin(1, 4));
    if (fault == 5) {              // a field size that leads out of the file
        Parsed p = parse(b); size_t at = p.secs[2][0].first; uint32_t v = (uint32_t)b.size() + (uint32_t)t.below(1000);
        if (t.coin()) at += 4 + n8q;
        for (int i = 0; i < 4; i++) b[at + i] = (uint8_t)(v >> (8 * i));
        h = open(t, b, "zkey", 1, false);
    }
    static const char *fn[] = {"well formed", "another protocol", "section 2 of another size", "section 1 of another size", "a section missing", "a field size beyond the file"};
    t.label("zkey %s", fn[fault]); t.note("zkey %s: n8q %u n8r %u nVars %u nPublic %u domain %u, %zu bytes of coefficients", fn[fault], n8q, n8r, nVars, nPublic, dom, s4.size()); t.nontrivial();
    std::unique_ptr<ZKeyUtils::Header> z;
    bool th = throws([&] { z = ZKeyUtils::loadHeader(h.get()); });
    PBT_CHECK(th == (fault != 0), "the header of a zkey file with %s is %s", fn[fault], th ? "rejected" : "accepted");
    if (fault) return;
    PBT_CHECK(z->n8q == n8q && z->n8r == n8r, "n8q %u n8r %u", z->n8q, z->n8r);
    PBT_CHECK(Z(z->qPrime) == num(q), "qPrime is %s, expected %s", Z(z->qPrime).get_str(16).c_str(), num(q).get_str(16).c_str());
    PBT_CHECK(Z(z->rPrime) == num(r), "rPrime is %s, expected %s", Z(z->rPrime).get_str(16).c_str(), num(r).get_str(16).c_str());
    PBT_CHECK(z->nVars == nVars && z->nPublic == nPublic && z->domainSize == dom, "nVars %u nPublic %u domainSize %u", z->nVars, z->nPublic, z->domainSize);
    PBT_CHECK(z->nCoefs == s4.size() / (12 + n8r), "nCoefs is %llu, expected %zu", (unsigned long long)z->nCoefs, s4.size() / (12 + n8r));
    void *p[6] = {z->vk_alpha1, z->vk_beta1, z->vk_beta2, z->vk_gamma2, z->vk_delta1, z->vk_delta2};
    static const char *pn[] = {"alpha1", "beta1", "beta2", "gamma2", "delta1", "delta2"};
    for (int i = 0; i < 6; i++) PBT_CHECK(!memcmp(p[i], pts[i].data(), pts[i].size()), "vk_%s does not hold the file's bytes", pn[i]);
    PBT_CHECK(!throws([&] { h->startReadSection(4); h->endReadSection(false); }), "the file cannot be read after its header");
}
static void wtns(pbt::Tape &t) {
    File f; f.type = "wtns"; f.version = 2;
    uint32_t n8 = t.coin(1, 30) ? 100 + (uint32_t)t.below(t.coin() ? 300 : 70000) : t.coin() ? 32 : (uint32_t)t.below(100), nVars = (uint32_t)(t.below(1ull << 32) >> t.below(32));
    Bytes q = primeBytes(t, n8), s1; u32(s1, n8); app(s1, q); u32(s1, nVars);
    int fault = (int)t.weighted({10, 3, 3, 2, 2});
    if (fault == 1) s1.resize(s1.size() + 1 + t.below(9));
    if (fault == 2) s1.resize(s1.size() - 1 - t.below(s1.size() - 1));
    if (fault != 3) f.secs.push_back({1, s1});
    f.secs.push_back({2, genBytes(t, t.below(300))}); extras(t, f, 3); shuffle(t, f.secs);
    Bytes b = write(f);
    if (fault == 4) { Parsed p = parse(b); size_t at = p.secs[1][0].first; uint32_t v = (uint32_t)b.size() + (uint32_t)t.below(1u << 31); for (int i = 0; i < 4; i++) b[at + i] = (uint8_t)(v >> (8 * i)); }
    std::unique_ptr<BinFile> h = open(t, b, "wtns", 2, t.coin(1, 4));
    static const char *fn[] = {"well formed", "section 1 too long", "section 1 too short", "section 1 missing", "a field size beyond the file"};
    t.label("wtns %s", fn[fault]); t.note("wtns %s: n8 %u nVars %u", fn[fault], n8, nVars); t.nontrivial();
    std::unique_ptr<WtnsUtils::Header> w;
    bool th = throws([&] { w = WtnsUtils::loadHeader(h.get()); });
    PBT_CHECK(th == (fault != 0), "the header of a wtns file with %s is %s", fn[fault], th ? "rejected" : "accepted");
    if (fault) return;
    PBT_CHECK(w->n8 == n8 && w->nVars == nVars, "n8 %u nVars %u", w->n8, w->nVars);
    PBT_CHECK(Z(w->prime) == num(q), "prime is %s, expected %s", Z(w->prime).get_str(16).c_str(), num(q).get_str(16).c_str());
    PBT_CHECK(!throws([&] { h->startReadSection(2); h->endReadSection(false); }), "the file cannot be read after its header");
}
#ifdef HUGE_FILES
// Files of several gigabytes, in memory that is nearly all untouched zero pages: lengths and positions have 64 bits.
struct HugeFile {
    uint64_t size = 0; uint8_t *m = nullptr; std::vector<uint64_t> at, len; ThreadUtils::Sparse sp;
    struct S { uint32_t id; uint64_t start, size; }; std::vector<S> secs;
    void put(uint64_t p, const Bytes &b) { if (b.empty()) return; memcpy(m + p, b.data(), b.size()); at.push_back(p); len.push_back(b.size()); }
    HugeFile(pbt::Tape &t, const char *type, uint32_t version, const std::vector<std::pair<uint32_t, uint64_t>> &plan, const std::map<uint32_t, Bytes> &head) {
        size = 12; for (auto &x : plan) size += 12 + x.second;
        void *probe = malloc(size + (1 << 20)); if (!probe) throw pbt::Discard(); free(probe);
        void *a = mmap(nullptr, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (a == MAP_FAILED) throw pbt::Discard();
        m = (uint8_t *)a;
        Bytes b(type, type + 4); u32(b, version); u32(b, (uint32_t)plan.size()); put(0, b);
        uint64_t pos = 12;
        for (auto &x : plan) {
            b.clear(); u32(b, x.first); u64(b, x.second); put(pos, b); pos += 12;
            auto h = head.find(x.first);
            if (h != head.end()) put(pos, h->second);
            else for (int i = 0; i < 4; i++) {                        // the beginning, the end and places in between
                uint64_t n = std::min<uint64_t>(x.second, 24), o = i == 0 ? 0 : i == 1 ? x.second - n : (t.coin() && x.second > (1ull << 32) + 64 ? (1ull << 32) - 12 : x.second > n ? t.below(x.second - n) : 0);
                put(pos + o, genBytes(t, n));
            }
            secs.push_back({x.first, pos, x.second}); pos += x.second;
        }
        sp = ThreadUtils::Sparse{m, at.data(), len.data(), (int)at.size()}; if (size >> 26) ThreadUtils::sparse() = &sp;      // malloc gives fresh (zero) memory then
    }
    ~HugeFile() { ThreadUtils::sparse() = nullptr; if (m) munmap(m, size); }
};
static uint64_t hugeSize(pbt::Tape &t) {
    switch (t.weighted({3, 3, 2, 2})) {
    case 0: return t.below(200);
    case 1: return (1ull << 32) + t.below(100) - (t.coin() ? 50 : 0);
    case 2: return (1ull << 31) + t.below(100) - (t.coin() ? 50 : 0);
    default: return (1ull << 30) + t.below(5ull << 30);
    }
}
static void hugeFile(pbt::Tape &t) {
    std::vector<std::pair<uint32_t, uint64_t>> plan; size_t n = 1 + t.below(5); uint64_t total = 12;
    for (size_t i = 0; i < n; i++) { uint64_t s = hugeSize(t); if (total + s > (10ull << 30)) s = t.below(100); plan.push_back({(uint32_t)t.below(4), s}); total += 12 + s; t.note(" %u:%llu", plan.back().first, (unsigned long long)s); }
    t.label("%s", total >> 32 ? "beyond 2^32" : total >> 31 ? "beyond 2^31" : "small"); if (total >> 31) t.nontrivial();
    HugeFile f(t, "ptau", 1, plan, {});
    BinFile h(f.m, f.size, "ptau", 1);
    std::map<uint32_t, uint32_t> seen;
    for (auto &s : f.secs) {
        uint32_t k = seen[s.id]++;
        unsigned long long got = h.getSectionSize(s.id, k);
        PBT_CHECK(got == s.size, "section %u,%u has size %llu, expected %llu", s.id, k, got, (unsigned long long)s.size);
        uint8_t *d = (uint8_t *)h.getSectionData(s.id, k);
        for (size_t i = 0; i < f.at.size(); i++) if (f.at[i] >= s.start && f.at[i] + f.len[i] <= s.start + s.size)
            PBT_CHECK(!memcmp(d + (f.at[i] - s.start), f.m + f.at[i], f.len[i]), "section %u,%u does not hold the file's bytes at %llu", s.id, k, (unsigned long long)(f.at[i] - s.start));
        // read it in pieces, most of them long
        h.startReadSection(s.id, k);
        uint64_t pos = 0; int steps = 0;
        while (pos < s.size) {
            uint64_t left = s.size - pos, c = ++steps > 6 || t.coin(1, 4) ? left : t.coin() && left > (1ull << 32) ? (1ull << 32) : t.below(left + 1);
            if (left >= 8 && t.coin(1, 3)) { c = t.coin() ? 4 : 8; uint64_t v = c == 4 ? h.readU32LE() : h.readU64LE(), w = 0; memcpy(&w, f.m + s.start + pos, c); PBT_CHECK(v == w, "a number at %llu of section %u,%u is %llx, the file has %llx", (unsigned long long)pos, s.id, k, (unsigned long long)v, (unsigned long long)w); }
            else { void *p = h.read(c); PBT_CHECK(p == d + pos, "read(%llu) at %llu of section %u,%u gives another place", (unsigned long long)c, (unsigned long long)pos, s.id, k); }
            pos += c;
            if (pos < s.size && t.coin(1, 4)) {
                PBT_CHECK(throws([&] { h.endReadSection(); }), "a section of which %llu of %llu bytes are read can be ended", (unsigned long long)pos, (unsigned long long)s.size);
                PBT_CHECK(throws([&] { h.read(f.size - s.start - pos + 1 + t.below(10)); }), "reading past the end of the file is accepted");
            }
        }
        PBT_CHECK(!throws([&] { h.endReadSection(); }), "a section of which all bytes are read cannot be ended");
    }
    // the same bytes cut off within the last section
    if (f.secs.back().size) PBT_CHECK(throws([&] { BinFile g(f.m, f.size - 1 - t.below(f.secs.back().size), "ptau", 1); }), "a file that ends inside its last section is accepted");
}
static void hugeKey(pbt::Tape &t) {
    uint32_t n8q = t.coin() ? 32 : 48, n8r = t.coin() ? 32 : 8 + (uint32_t)t.below(60); Bytes s1, s2; u32(s1, 1);
    Bytes q = genBytes(t, n8q), r = genBytes(t, n8r); u32(s2, n8q); app(s2, q); u32(s2, n8r); app(s2, r); u32(s2, 7); u32(s2, 3); u32(s2, 1u << 24); Bytes pts = genBytes(t, (size_t)n8q * 18); app(s2, pts);
    uint64_t n4 = hugeSize(t), n5 = hugeSize(t); if (n4 + n5 > (10ull << 30)) n5 = 50;
    std::vector<std::pair<uint32_t, uint64_t>> plan{{1, s1.size()}, {2, s2.size()}, {4, n4}, {5, n5}};
    for (size_t i = plan.size(); i > 1; i--) std::swap(plan[i - 1], plan[i - 1 - t.below(i)]);
    for (auto &x : plan) t.note(" %u:%llu", x.first, (unsigned long long)x.second);
    t.label("%s", (n4 + n5) >> 32 ? "beyond 2^32" : (n4 + n5) >> 31 ? "beyond 2^31" : "small"); if ((n4 + n5) >> 31) t.nontrivial();
    HugeFile f(t, "zkey", 1, plan, {{1, s1}, {2, s2}});
    BinFile h(f.m, f.size, "zkey", 1);
    auto z = ZKeyUtils::loadHeader(&h);
    PBT_CHECK(z->n8q == n8q && z->n8r == n8r && Z(z->qPrime) == num(q) && Z(z->rPrime) == num(r) && z->nVars == 7 && z->nPublic == 3 && z->domainSize == 1u << 24, "the header of a long file is wrong");
    PBT_CHECK(!memcmp(z->vk_alpha1, pts.data(), pts.size()), "the points of a long file are wrong");
    PBT_CHECK(z->nCoefs == n4 / (12 + n8r), "nCoefs is %llu, expected %llu", (unsigned long long)z->nCoefs, (unsigned long long)(n4 / (12 + n8r)));
}
#endif
int main(int argc, char **argv) {
#ifdef HUGE_FILES
    pbt::addProp("C21/huge", 1, hugeFile);
    pbt::addProp("C22/huge", 1, hugeKey);
    return pbt::mainDriver(argc, argv);
#endif
    pbt::addProp("C21/valid", 8, valid);
    pbt::addProp("C21/malformed", 8, malformed);
    pbt::addProp("C21/missing", 1, missing);
    pbt::addProp("C22/zkey", 5, zkey);
    pbt::addProp("C22/wtns", 4, wtns);
    return pbt::mainDriver(argc, argv);
}
