// C05: conversions between representations, text, integers, copies.   C06: histories of operations.
#include "field.hpp"
#include <set>

// Pointers handed out by the array form of operator new: a string the caller is told to free() must not be one.
static thread_local bool tracking = false;
static std::set<void *> &arrays() { static std::set<void *> s; return s; }
void *operator new[](size_t n) {
    void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc();
    if (tracking) { tracking = false; arrays().insert(p); tracking = true; }
    return p;
}
void operator delete[](void *p) noexcept { if (tracking) { tracking = false; arrays().erase(p); tracking = true; } free(p); }
void operator delete[](void *p, size_t) noexcept { operator delete[](p); }

static std::string elementText(FrElement *e, bool &isArray) {
    arrays().clear(); tracking = true;
    char *s = Fr_element2str(e);
    tracking = false;
    isArray = arrays().count(s) != 0;
    std::string r(s); free(s); return r;
}

// a decimal integer of any size and sign
static Z genInteger(pbt::Tape &t, const char **cls) {
    Z v;
    switch (t.weighted({3, 3, 3, 2, 2})) {
    case 0: *cls = "int32"; { const char *c; v = (long)genInt32(t, &c); } return v;
    case 1: *cls = "field"; v = fm::genValue(t, M); break;
    case 2: *cls = "near k*q"; v = M.q * Z((long)t.below(5)) + Z((long)t.range(0, 6) - 3); break;
    case 3: *cls = "near 2^31"; v = (Z(1) << (31 + (int)t.below(2))) + Z((long)t.range(0, 6) - 3); break;
    default: *cls = "huge"; { int n = 1 + (int)t.below(t.coin(1, 30) ? 200 : 2 * M.n64 + 2); v = 0; for (int i = 0; i < n; i++) v = (v << 64) + Z(t.u64() >> 32 << 32 | (t.u64() & 0xffffffff)); } break;
    }
    if (t.coin(1, 3)) v = -v;
    return v;
}

static void textIn(pbt::Tape &t) {
    const char *cls; Z v = genInteger(t, &cls);
    std::string s = v.get_str(10);
    if (t.coin(1, 6)) { size_t at = s[0] == '-' ? 1 : 0; s.insert(at, std::string(1 + t.below(3), '0')); }
    FrElement e = junkElem(t);
    t.note("str2element(\"%s\")", s.c_str()); t.label("parse %s%s", cls, v < 0 ? " negative" : "");
    if (abs(v) > 1) t.nontrivial();
    Fr_str2element(&e, s.c_str());
    Z got; std::string bad = decode(e, got);
    PBT_CHECK(bad.empty(), "str2element(%s): %s", s.c_str(), bad.c_str());
    PBT_CHECK(got == M.mod(v), "str2element(%s) = %s, expected %s", s.c_str(), fm::hex(got).c_str(), fm::hex(M.mod(v)).c_str());
    bool arr; std::string back = elementText(&e, arr);
    PBT_CHECK(back == M.mod(v).get_str(10), "element2str(str2element(%s)) = %s, expected %s", s.c_str(), back.c_str(), M.mod(v).get_str(10).c_str());
}

static void textOut(pbt::Tape &t) {
    TV a = genElem(t); FrElement e = a.e;
    t.note("element2str(%s)", show(a).c_str()); t.label("print %s", repName[a.rep]);
    if (a.v > 1) t.nontrivial();
    bool arr; std::string s = elementText(&e, arr);
    PBT_CHECK(s == a.v.get_str(10), "element2str(%s) = \"%s\", expected \"%s\"", show(a).c_str(), s.c_str(), a.v.get_str(10).c_str());
    PBT_CHECK(!memcmp(&e, &a.e, sizeof e), "element2str(%s) changed its operand", show(a).c_str());
    PBT_CHECK(!arr, "element2str(%s) returned memory of operator new[]; the documented way to release it is free()", show(a).c_str());
    FrElement b = junkElem(t); Fr_str2element(&b, s.c_str());
    Z v; std::string bad = decode(b, v);
    PBT_CHECK(bad.empty() && v == a.v, "str2element(element2str(%s)) = %s %s", show(a).c_str(), fm::hex(v).c_str(), bad.c_str());
}

static void toInt(pbt::Tape &t) {
    TV a;
    if (t.coin(2, 3)) {      // a value that fits, or just does not, or whose low word looks as if it did
        const char *c; Z v = (long)genInt32(t, &c);
        a.cls = "fits";
        if (t.coin()) {
            a.cls = "near miss";
            switch (t.below(4)) {
            case 0: v = (Z(1) << 31) + (long)t.below(3); break;
            case 1: v = -(Z(1) << 31) - 1 - (long)t.below(3); break;
            case 2: v += (Z(1) << (int)(32 + t.below(M.bits > 33 ? M.bits - 33 : 1))) * (t.coin() ? 1 : -1); break;
            default: if (M.n64 > 1) v += Z((long)t.below(1000) + 1) << (64 * (1 + (int)t.below(M.n64 - 1))); if (t.coin()) v = -v; break;
            }
        }
        a.v = M.mod(v); a.rep = genRep(t, a.v); a.e = encode(a.v, a.rep, t.below(1000));
    } else a = genElem(t);
    FrElement e = a.e; volatile int got = 0;
    bool fits = fitsShort(a.v);
    t.note("toInt(%s)", show(a).c_str()); t.label("toInt %s %s", repName[a.rep], fits ? "fits" : "does not fit");
    if (a.v > 1) t.nontrivial();
    bool ab = pbt::aborts([&] { got = Fr_toInt(&e); });
    if (fits) {
        PBT_CHECK(!ab, "toInt(%s) failed, expected %d", show(a).c_str(), shortOf(a.v));
        PBT_CHECK(got == shortOf(a.v), "toInt(%s) = %d, expected %d", show(a).c_str(), (int)got, shortOf(a.v));
    } else PBT_CHECK(ab, "toInt(%s) returned %d although the value does not fit a signed 32-bit integer", show(a).c_str(), (int)got);
    if (!ab) PBT_CHECK(!memcmp(&e, &a.e, sizeof e), "toInt(%s) changed its operand", show(a).c_str());
}

static void isTrue(pbt::Tape &t) {
    TV a = genElem(t);
    if (t.coin(1, 4)) { a.v = 0; a.rep = (Rep)t.below(4); a.e = encode(a.v, a.rep, t.below(1000)); }
    FrElement e = a.e;
    t.note("isTrue(%s)", show(a).c_str()); t.label("isTrue %s %s", repName[a.rep], a.v == 0 ? "0" : "nonzero");
    t.nontrivial();
    int r = Fr_isTrue(&e);
    PBT_CHECK((r != 0) == (a.v != 0), "isTrue(%s) = %d", show(a).c_str(), r);
    PBT_CHECK(!memcmp(&e, &a.e, sizeof e), "isTrue(%s) changed its operand", show(a).c_str());
}

static void convert(pbt::Tape &t) {
    const Op &op = t.pick(repOps());
    TV a = genElem(t); FrElement e = a.e, r = junkElem(t);
    bool inPlace = t.coin(1, 3);
    t.note("%s(%s)%s", op.name, show(a).c_str(), inPlace ? " in place" : ""); t.label("%s %s%s", op.name, repName[a.rep], inPlace ? " in place" : "");
    if (a.v > 1) t.nontrivial();
    FrElement &d = inPlace ? e : r;
    op.f1(&d, &e);
    Z v; std::string bad = decode(d, v);
    PBT_CHECK(bad.empty(), "%s(%s): %s", op.name, show(a).c_str(), bad.c_str());
    PBT_CHECK(v == a.v, "%s(%s) changed the value to %s", op.name, show(a).c_str(), fm::hex(v).c_str());
    if (!inPlace) PBT_CHECK(!memcmp(&e, &a.e, sizeof e), "%s(%s) changed its operand", op.name, show(a).c_str());
    if (op.f1 == Fr_copy) PBT_CHECK(!memcmp(&d, &a.e, sizeof e), "copy(%s) is not identical", show(a).c_str());
    if (op.f1 == Fr_toNormal) PBT_CHECK(!(d.type & Fr_MONTGOMERY) || !(d.type & Fr_LONG), "toNormal(%s) left Montgomery form", show(a).c_str());
    if (op.f1 == Fr_toLongNormal) PBT_CHECK(d.type == Fr_LONG && getLimbs(d) == a.v, "toLongNormal(%s): type 0x%08x, limbs %s", show(a).c_str(), (unsigned)d.type, fm::hex(getLimbs(d)).c_str());
    if (op.f1 == Fr_toMontgomery) PBT_CHECK((d.type & Fr_MONTGOMERY) && getLimbs(d) == M.toMont(a.v), "toMontgomery(%s): type 0x%08x, limbs %s", show(a).c_str(), (unsigned)d.type, fm::hex(getLimbs(d)).c_str());
}

static void copyn(pbt::Tape &t) {
    int n = (int)t.below(t.coin(1, 12) ? 300 : 9);
    std::vector<FrElement> src, dst, want;
    for (int i = 0; i < n + 2; i++) { src.push_back(genElem(t).e); dst.push_back(junkElem(t)); }
    want = dst; for (int i = 0; i < n; i++) want[i + 1] = src[i + 1];
    std::vector<FrElement> src0 = src;
    t.note("copyn of %d", n); t.label("copyn %d", n); if (n > 1) t.nontrivial();
    Fr_copyn(&dst[1], &src[1], n);
    PBT_CHECK(!memcmp(dst.data(), want.data(), sizeof(FrElement) * (n + 2)), "copyn of %d elements: the destination (or what surrounds it) is wrong", n);
    PBT_CHECK(!memcmp(src.data(), src0.data(), sizeof(FrElement) * (n + 2)), "copyn of %d elements changed its source", n);
}

// ------------------------------------------------------------------------------------------ C06 histories
struct Slot { FrElement e; Z v; };

static void history(pbt::Tape &t) {
    const int K = 5;
    static std::vector<const Op *> all;
    if (all.empty()) for (auto *g : {&ringOps(), &divOps(), &cmpOps(), &bitOps(), &repOps()}) for (auto &o : *g) all.push_back(&o);
    Slot s[K]; std::string log;
    for (int i = 0; i < K; i++) { TV x = genElem(t); s[i].e = x.e; s[i].v = x.v; log += (i ? ", s" : "s") + std::to_string(i) + "=" + show(x); }
    int steps = 0, mixed = 0;
    const int most = t.coin(1, 50) ? 400 : 28;
    for (int k = 0; k < most && (k == 0 || t.below(most > 28 ? 200 : 20) != 0); k++, steps++) {       // 0 ends the history: deleting an operation's draws deletes the operation
        int r = (int)t.below(K), a = (r + 1 + (int)t.below(K - 1)) % K, b = (r + 1 + (int)t.below(K - 1)) % K;
        FrElement before[K]; for (int i = 0; i < K; i++) before[i] = s[i].e;
        std::string what; Z want;
        if (t.coin(1, 10)) {
            const char *c; Z v = genInteger(t, &c); std::string str = v.get_str(10);
            what = "s" + std::to_string(r) + " = parse " + str; want = M.mod(v);
            Fr_str2element(&s[r].e, str.c_str());
        } else {
            const Op &op = *all[t.below(all.size())];
            bool shift = op.f2 == Fr_shl || op.f2 == Fr_shr;
            if (shift && t.coin(2, 3)) {         // give the second operand a useful amount first
                const char *c; s[b].v = genShift(t, &c); s[b].e = encode(s[b].v, genRep(t, s[b].v), t.below(1000)); before[b] = s[b].e; log += "; s" + std::to_string(b) + ":=" + fm::hex(s[b].v);
            }
            if (!op.domain(s[a].v, op.arity == 2 ? s[b].v : s[a].v)) continue;
            what = "s" + std::to_string(r) + " = " + op.name + "(s" + std::to_string(a) + (op.arity == 2 ? ", s" + std::to_string(b) : "") + ")";
            want = op.model(s[a].v, s[b].v);
            log += "; " + what;
            if (op.arity == 1) op.f1(&s[r].e, &s[a].e); else op.f2(&s[r].e, &s[a].e, &s[b].e);
            if (s[a].v > 1) mixed++;
            t.label("step %s", op.name);
        }
        Z got; std::string bad = decode(s[r].e, got);
        t.desc = log; 
        PBT_CHECK(bad.empty(), "after [%s]: %s: %s", log.c_str(), what.c_str(), bad.c_str());
        PBT_CHECK(got == want, "after [%s]: %s gave %s, expected %s", log.c_str(), what.c_str(), fm::hex(got).c_str(), fm::hex(want).c_str());
        for (int i = 0; i < K; i++) if (i != r) PBT_CHECK(!memcmp(&before[i], &s[i].e, sizeof(FrElement)), "after [%s]: %s changed s%d, which it does not write", log.c_str(), what.c_str(), i);
        s[r].v = want;
        bool arr; if (t.coin(1, 6)) { std::string txt = elementText(&s[r].e, arr); PBT_CHECK(txt == want.get_str(10), "after [%s]: the text of s%d is %s, expected %s", log.c_str(), r, txt.c_str(), want.get_str(10).c_str()); }
    }
    t.label("history length %d-%d", steps / 8 * 8, steps / 8 * 8 + 7);
    t.note("%s", log.c_str());
    if (mixed >= 3) t.nontrivial();
}

int main(int argc, char **argv) {
    pbt::addProp("C05/parse", 3, textIn, 20);
    pbt::addProp("C05/print", 3, textOut, 20);
    pbt::addProp("C05/toInt", 4, toInt, 20);
    pbt::addProp("C05/isTrue", 2, isTrue, 20);
    pbt::addProp("C05/convert", 4, convert, 20);
    pbt::addProp("C05/copyn", 1, copyn, 20);
    pbt::addProp("C06/history", 1, history, 30);
    return pbt::mainDriver(argc, argv);
}
