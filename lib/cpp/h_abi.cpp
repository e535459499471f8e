// C09: containment and calling convention.  Every object lies against an unmapped page, operands that are not results
// are read-only, and the call goes through a trampoline that plants values in every callee-saved register, junk in the
// others, and runs the function on a stack of its own with a canary above it.
#include "field.hpp"

struct Ctx { void *fn; uint64_t arg[4], in[6], out[6], newsp, savedsp, outsp, ret, flags, junk; };
extern "C" void abi_call(Ctx *);
asm(R"(
    .intel_syntax noprefix
    .text
    .globl abi_call
abi_call:
    push rbx
    push rbp
    push r12
    push r13
    push r14
    push r15
    mov [rdi + 8*18], rsp
    mov [rip + abi_ctx], rdi
    mov rsp, [rdi + 8*17]
    mov rbx, [rdi + 8*5]
    mov rbp, [rdi + 8*6]
    mov r12, [rdi + 8*7]
    mov r13, [rdi + 8*8]
    mov r14, [rdi + 8*9]
    mov r15, [rdi + 8*10]
    mov rax, [rdi]
    mov rcx, [rdi + 8*4]
    mov rdx, [rdi + 8*3]
    mov rsi, [rdi + 8*2]
    mov r8,  [rdi + 8*22]
    mov r9,  r8
    mov r10, r8
    mov r11, r8
    mov rdi, [rdi + 8*1]
    call rax
    mov [rip + abi_ret], rax
    mov rax, [rip + abi_ctx]
    mov [rax + 8*11], rbx
    mov [rax + 8*12], rbp
    mov [rax + 8*13], r12
    mov [rax + 8*14], r13
    mov [rax + 8*15], r14
    mov [rax + 8*16], r15
    mov [rax + 8*19], rsp
    mov rsp, [rax + 8*18]
    pushfq
    pop rcx
    mov [rax + 8*21], rcx
    cld
    mov rcx, [rip + abi_ret]
    mov [rax + 8*20], rcx
    pop r15
    pop r14
    pop r13
    pop r12
    pop rbp
    pop rbx
    ret
    .bss
    .balign 8
abi_ctx: .zero 8
abi_ret: .zero 8
    .text
    .att_syntax
)");

static const size_t PG = 4096;
struct Guarded {                       // one usable page between two unmapped ones
    unsigned char *page; size_t size = PG;
    Guarded(size_t n = PG) : size(n) {
        unsigned char *p = (unsigned char *)mmap(nullptr, n + 2 * PG, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (p == MAP_FAILED) { perror("mmap"); exit(3); }
        page = p + PG; writable(true);
    }
    void writable(bool w) { mprotect(page, size, w ? PROT_READ | PROT_WRITE : PROT_READ); }
    void *place(size_t n, bool end) { return end ? page + size - n : page; }
};
static Guarded &G(int i) { static Guarded g[3] = {Guarded(4 * PG), Guarded(4 * PG), Guarded(4 * PG)}; return g[i]; }

// Calls fn; "" or what it did wrong.  The stack it runs on is guarded at the low end; 512 bytes above its frame are a canary.
static std::string guardedCall(pbt::Tape &t, void *fn, std::initializer_list<uint64_t> args, uint64_t &ret) {
    static Guarded st(256 * 1024);
    Ctx c; memset(&c, 0, sizeof c); c.fn = fn; uint64_t x = t.below(1000) + 1;
    int i = 0; for (uint64_t a : args) c.arg[i++] = a; for (; i < 4; i++) c.arg[i] = pbt::splitmix(x);
    for (int k = 0; k < 6; k++) c.in[k] = pbt::splitmix(x);
    c.junk = pbt::splitmix(x);
    uint64_t *top = (uint64_t *)(st.page + st.size) - 64, canary[64]; for (int k = 0; k < 64; k++) top[k] = canary[k] = pbt::splitmix(x);
    // what lies below on the stack is unspecified
    for (uint64_t *p = top - 256; p < top; p++) *p = c.junk;
    c.newsp = (uint64_t)top;
    abi_call(&c);
    ret = c.ret;
    static const char *rn[] = {"rbx", "rbp", "r12", "r13", "r14", "r15"};
    for (int k = 0; k < 6; k++) if (c.in[k] != c.out[k]) return std::string("did not preserve register ") + rn[k];
    if (c.outsp != c.newsp) return "did not restore the stack pointer";
    if (c.flags & 0x400) return "left the direction flag set";
    if (memcmp(canary, top, sizeof canary)) return "wrote to its caller's stack frame";
    return "";
}

static void tagged(pbt::Tape &t, const Op &op) {
    TV a = genElem(t), b; b.v = 1;
    if (op.arity == 2) {
        if (op.f2 == Fr_shl || op.f2 == Fr_shr) { const char *c; b.v = genShift(t, &c); b.rep = genRep(t, b.v); b.e = encode(b.v, b.rep, t.below(1000)); }
        else b = genElem(t, &a.v);
    }
    if (!op.domain(a.v, b.v)) throw pbt::Discard();
    bool same = op.arity == 2 && t.coin(1, 12); if (same) { b = a; if (!op.domain(a.v, b.v)) throw pbt::Discard(); }
    FrElement *pr = (FrElement *)G(0).place(sizeof(FrElement), t.coin()), *pa = (FrElement *)G(1).place(sizeof(FrElement), t.coin()), *pb = (FrElement *)G(2).place(sizeof(FrElement), t.coin());
    *pa = a.e; if (op.arity == 2) *pb = b.e; *pr = junkElem(t);
    G(1).writable(false); G(2).writable(false);
    t.note("%s(%s, %s)", op.name, show(a).c_str(), op.arity == 2 ? show(b).c_str() : ""); t.label("%s %s", op.name, repName[a.rep]); t.nontrivial();
    uint64_t ret; std::string bad;
    if (op.arity == 1) bad = guardedCall(t, (void *)op.f1, {(uint64_t)pr, (uint64_t)pa}, ret);
    else bad = guardedCall(t, (void *)op.f2, {(uint64_t)pr, (uint64_t)pa, (uint64_t)(same ? pa : pb)}, ret);
    G(1).writable(true); G(2).writable(true);
    PBT_CHECK(bad.empty(), "%s(%s, %s) %s", op.name, show(a).c_str(), op.arity == 2 ? show(b).c_str() : "", bad.c_str());
    Z got, want = op.model(a.v, b.v); bad = decode(*pr, got);
    PBT_CHECK(bad.empty() && got == want, "%s(%s, %s) = %s, expected %s: depends on stale memory or registers? %s", op.name, show(a).c_str(), op.arity == 2 ? show(b).c_str() : "", fm::hex(got).c_str(), fm::hex(want).c_str(), bad.c_str());
}

static void others(pbt::Tape &t) {
    int which = (int)t.below(5);
    if (which == 0) {                  // an array copy; the upper half of the register of an int argument is unspecified
        int n = (int)t.below(6); FrElement src[6], *d, *s;
        d = (FrElement *)G(0).place(n * sizeof(FrElement), t.coin()); s = (FrElement *)G(1).place(n * sizeof(FrElement), t.coin());
        for (int i = 0; i < n; i++) { src[i] = genElem(t).e; s[i] = src[i]; d[i] = junkElem(t); }
        uint64_t ret, hi = t.coin() ? t.below(1 << 20) << 32 : 0; t.note("copyn %d", n); t.label("copyn"); t.nontrivial();
        G(1).writable(false); std::string bad = guardedCall(t, (void *)Fr_copyn, {(uint64_t)d, (uint64_t)s, hi | (unsigned)n}, ret); G(1).writable(true);
        PBT_CHECK(bad.empty(), "copyn of %d %s", n, bad.c_str());
        PBT_CHECK(!memcmp(d, src, n * sizeof(FrElement)), "copyn of %d elements copied wrongly", n);
        return;
    }
    TV a = genElem(t); FrElement *pa = (FrElement *)G(1).place(sizeof(FrElement), t.coin()); 
    if (which == 2) { const char *c; a.v = M.mod(Z((long)genInt32(t, &c))); a.rep = (Rep)t.below(4); a.e = encode(a.v, a.rep, t.below(1000)); }
    *pa = a.e; uint64_t ret = 0; std::string bad;
    t.note("%d: %s", which, show(a).c_str()); t.nontrivial();
    if (which == 1 || which == 2) {
        G(1).writable(false);
        t.label(which == 1 ? "isTrue" : "toInt");
        bad = guardedCall(t, which == 1 ? (void *)Fr_isTrue : (void *)Fr_toInt, {(uint64_t)pa}, ret); G(1).writable(true);
        PBT_CHECK(bad.empty(), "%s(%s) %s", which == 1 ? "isTrue" : "toInt", show(a).c_str(), bad.c_str());
        if (which == 1) PBT_CHECK(((int)ret != 0) == (a.v != 0), "isTrue(%s) = %d", show(a).c_str(), (int)ret);
        else PBT_CHECK((int)ret == shortOf(a.v), "toInt(%s) = %d", show(a).c_str(), (int)ret);
    } else if (which == 3) {
        t.label("element2str"); G(1).writable(false); bad = guardedCall(t, (void *)Fr_element2str, {(uint64_t)pa}, ret); G(1).writable(true);
        PBT_CHECK(bad.empty(), "element2str(%s) %s", show(a).c_str(), bad.c_str());
        std::string s((char *)ret); free((void *)ret);
        PBT_CHECK(s == a.v.get_str(10), "element2str(%s) = %s", show(a).c_str(), s.c_str());
    } else {
        std::string s = a.v.get_str(10); char *p = (char *)G(2).place(s.size() + 1, true); strcpy(p, s.c_str()); *pa = junkElem(t);
        t.label("str2element"); G(2).writable(false); bad = guardedCall(t, (void *)Fr_str2element, {(uint64_t)pa, (uint64_t)p}, ret); G(2).writable(true);
        PBT_CHECK(bad.empty(), "str2element(%s) %s", s.c_str(), bad.c_str());
        Z v; bad = decode(*pa, v); PBT_CHECK(bad.empty() && v == a.v, "str2element(%s) = %s %s", s.c_str(), fm::hex(v).c_str(), bad.c_str());
    }
}

static Z mmul(const Z &a, const Z &b) { return M.mod(a * b * M.Rinv); }
struct RawOp { const char *name; int kind; void *fn; std::function<Z(const Z &, const Z &)> model; };   // kind: operands 1, 2; 3 word; 4 swap; 5 test; 6 compare; 7 shift
static void raw(pbt::Tape &t) {
    static std::vector<RawOp> ops = {
        {"rawAdd", 2, (void *)Fr_rawAdd, [](const Z &a, const Z &b) { return M.mod(a + b); }}, {"rawSub", 2, (void *)Fr_rawSub, [](const Z &a, const Z &b) { return M.mod(a - b); }},
        {"rawMMul", 2, (void *)Fr_rawMMul, mmul}, {"rawNeg", 1, (void *)Fr_rawNeg, [](const Z &a, const Z &) { return M.mod(-a); }},
        {"rawMSquare", 1, (void *)Fr_rawMSquare, [](const Z &a, const Z &) { return mmul(a, a); }}, {"rawToMontgomery", 1, (void *)Fr_rawToMontgomery, [](const Z &a, const Z &) { return M.toMont(a); }},
        {"rawFromMontgomery", 1, (void *)Fr_rawFromMontgomery, [](const Z &a, const Z &) { return M.fromMont(a); }}, {"rawCopy", 1, (void *)Fr_rawCopy, [](const Z &a, const Z &) { return a; }},
        {"rawMMul1", 3, (void *)Fr_rawMMul1, mmul}, {"rawSwap", 4, (void *)Fr_rawSwap, nullptr}, {"rawIsZero", 5, (void *)Fr_rawIsZero, nullptr}, {"rawIsEq", 6, (void *)Fr_rawIsEq, nullptr},
        {"rawShl", 7, (void *)Fr_rawShl, [](const Z &a, const Z &b) { return M.shl(a, b); }}, {"rawShr", 7, (void *)Fr_rawShr, [](const Z &a, const Z &b) { return M.shr(a, b); }}};
    const RawOp &op = t.pick(ops);
    Z va = fm::genValue(t, M), vb = fm::genValue2(t, M, va); uint64_t w = t.coin() ? t.u64() : t.below(10), ret;
    if (op.kind == 7) { w = 1 + t.below(M.bits - 1); vb = (long)w; }
    if (op.kind == 3) mpz_import(vb.get_mpz_t(), 1, 1, 8, 0, 0, &w);
    size_t n = sizeof(FrRawElement);
    uint64_t *r = (uint64_t *)G(0).place(n, t.coin()), *a = (uint64_t *)G(1).place(n, t.coin()), *b = (uint64_t *)G(2).place(n, t.coin());
    uint64_t x = t.below(1000); for (int i = 0; i < Fr_N64; i++) r[i] = pbt::splitmix(x);
    fm::toLimbs(a, Fr_N64, va); if (op.kind != 3 && op.kind != 7) fm::toLimbs(b, Fr_N64, vb);
    bool alias = op.kind <= 3 && t.coin(1, 3);
    t.note("%s(%s, %s)%s", op.name, fm::hex(va).c_str(), fm::hex(vb).c_str(), alias ? " in place" : ""); t.label("%s", op.name); t.nontrivial();
    uint64_t *d = alias ? a : r; uint64_t D = (uint64_t)d, A = (uint64_t)a, B = (uint64_t)b; std::string bad;
    if (!alias && op.kind != 4) G(1).writable(false);
    if (op.kind != 4) G(2).writable(false);
    switch (op.kind) {
    case 1: bad = guardedCall(t, op.fn, {D, A}, ret); break;
    case 2: bad = guardedCall(t, op.fn, {D, A, B}, ret); break;
    case 3: case 7: bad = guardedCall(t, op.fn, {D, A, w}, ret); break;
    case 5: bad = guardedCall(t, op.fn, {A}, ret); break;
    default: bad = guardedCall(t, op.fn, {A, B}, ret); break;
    }
    G(1).writable(true); G(2).writable(true);
    PBT_CHECK(bad.empty(), "%s(%s, %s)%s %s", op.name, fm::hex(va).c_str(), fm::hex(vb).c_str(), alias ? " in place" : "", bad.c_str());
    Z na = fm::fromLimbs(a, Fr_N64), nb = fm::fromLimbs(b, Fr_N64);
    if (op.kind == 4) { PBT_CHECK(na == vb && nb == va, "rawSwap(%s, %s) left (%s, %s)", fm::hex(va).c_str(), fm::hex(vb).c_str(), fm::hex(na).c_str(), fm::hex(nb).c_str()); return; }
    if (op.kind == 5) { PBT_CHECK(((int)ret != 0) == (va == 0), "rawIsZero(%s) = %d", fm::hex(va).c_str(), (int)ret); return; }
    if (op.kind == 6) { PBT_CHECK(((int)ret != 0) == (va == vb), "rawIsEq(%s, %s) = %d", fm::hex(va).c_str(), fm::hex(vb).c_str(), (int)ret); return; }
    Z got = fm::fromLimbs(d, Fr_N64), want = op.model(va, vb);
    PBT_CHECK(got == want, "%s(%s, %s)%s = %s, expected %s: depends on stale memory or registers?", op.name, fm::hex(va).c_str(), fm::hex(vb).c_str(), alias ? " in place" : "", fm::hex(got).c_str(), fm::hex(want).c_str());
}

int main(int argc, char **argv) {
    for (auto *g : {&ringOps(), &divOps(), &cmpOps(), &bitOps(), &repOps()}) for (auto &o : *g) pbt::addProp(std::string("C09/") + o.name, o.arity, [&o](pbt::Tape &t) { tagged(t, o); }, 20);
    pbt::addProp("C09/others", 4, others, 20);
    pbt::addProp("C09/raw", 12, raw, 20);
    return pbt::mainDriver(argc, argv);
}
