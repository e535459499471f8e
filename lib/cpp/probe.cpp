// C12: what a user's program sees of a generated field NAME (header HDR): constants, sizes, the README's example, and
// arithmetic on operands read from the command line.  Every line of the output is compared with exact integers.
#include HDR
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define X(n) CAT(NAME, n)
typedef X(Element) TE; typedef CAT(Raw, NAME) RC; typedef RC::Element RE;
static void limbs(const char *what, const uint64_t *l) { printf("%s=", what); for (int i = X(_N64) - 1; i >= 0; i--) printf("%016lx", l[i]); printf("\n"); }
static void text(const char *what, TE *e) { char *s = X(_element2str)(e); printf("%s=%s\n", what, s); free(s); }
int CAT(probe_, NAME)(int argc, char **argv) {
    X(_init)();
    printf("n64=%d\nbits=%d\nbytes=%d\nsize=%zu\nrawsize=%zu\ntags=%x,%x,%x,%x,%x\n", X(_N64), RC::MaxBits, RC::field.bytes(), sizeof(TE), sizeof(RE), X(_SHORT), X(_SHORTMONTGOMERY), X(_LONG), X(_LONGMONTGOMERY), X(_MONTGOMERY));
    limbs("q", X(_q).longVal); limbs("R3", X(_R3).longVal);
    printf("qtype=%x\nR3type=%x\n", X(_q).type, X(_R3).type);
    limbs("zero", RC::field.zero().v); limbs("one", RC::field.one().v); limbs("negone", RC::field.negOne().v);
#ifndef USE_ASM
    limbs("R2", X(_R2).longVal);
#endif
    TE a, b, c; a.type = X(_SHORT); a.shortVal = 2; b.type = X(_SHORT); b.shortVal = 6;
    X(_mul)(&c, &a, &b); text("readme", &c);
    for (int i = 1; i + 1 < argc; i += 2) {
        X(_str2element)(&a, argv[i]); X(_str2element)(&b, argv[i + 1]);
        X(_mul)(&c, &a, &b); text("mul", &c); X(_add)(&c, &a, &b); text("add", &c); X(_sub)(&c, &a, &b); text("sub", &c);
        RC f; RE x, y, z; f.fromString(x, argv[i]); f.fromString(y, argv[i + 1]); f.mul(z, x, y); printf("rawmul=%s\n", f.toString(z).c_str());
    }
    return 0;
}
#ifdef MAIN
int main(int argc, char **argv) { int r = CAT(probe_, NAME)(argc, argv);
#ifdef OTHER
    extern int CAT(probe_, OTHER)(int, char **); printf("other\n"); r |= CAT(probe_, OTHER)(argc, argv);
#endif
    return r; }
#endif
