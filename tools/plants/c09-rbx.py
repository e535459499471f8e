PROPERTY="C09"
NEEDS="a field of eight or more words and a caller that keeps a value in rbx across a Montgomery operation (x86-64 assembly)"
BREAKS="the spilling Montgomery routines use rbx as their work register without saving it"
EDITS=[("src/asmbuilder.js","""            this.pushedRegs = this.pushableRegs;
""","""            this.pushedRegs = this.pushableRegs.slice(0, this.nUsedRegs - this.availableRegs.length);
""")]
FILES={"demo.cpp":r'''
#include "demo.h"
static uint64_t after(void (*f)(uint64_t *, const uint64_t *, const uint64_t *), uint64_t *r, const uint64_t *a, const uint64_t *b) {
    uint64_t out;
    asm volatile("push %%rbx\n\tmov $0x1234567887654321, %%rbx\n\tmov %%rsp, %%r12\n\tsub $128, %%rsp\n\tand $-16, %%rsp\n\tcall *%%rax\n\tmov %%r12, %%rsp\n\tmov %%rbx, %%r13\n\tpop %%rbx\n\tmov %%r13, %0"
        : "=r"(out), "+D"(r), "+S"(a), "+d"(b), "+a"(f) : : "rcx", "r8", "r9", "r10", "r11", "r12", "r13", "memory", "cc");
    return out;
}
int main() {
    FrRawElement a, b, r; toLimbs(a, modulus() - 5); toLimbs(b, modulus() - 7);
    ok("rbx after rawMMul", after((void (*)(uint64_t *, const uint64_t *, const uint64_t *))Fr_rawMMul, r, a, b) == 0x1234567887654321ull);
    ok("rbx after rawAdd", after((void (*)(uint64_t *, const uint64_t *, const uint64_t *))Fr_rawAdd, r, a, b) == 0x1234567887654321ull);
    return bad;
}
'''}
DEMO='''gen 41898490967918953402344214791240637128170709919953949071783502921025352812571106773058893763790338921418070971888458477323173057491593855069696241854796396165721416325350064441470418137846398469611935719059908164220784476160001 Fr
build_asm -O0 "$HERE/demo.cpp"
"$W/demo"
'''
