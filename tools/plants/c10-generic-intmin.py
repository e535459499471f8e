PROPERTY="C10"
NEEDS="the portable backend, a short operand equal to INT_MIN multiplied by a long Montgomery one"
BREAKS="the short operand is negated in 32 bits: INT_MIN times a Montgomery element differs between the backends"
EDITS=[("src/fr_generic.cpp.ejs","""static inline void mul_s1nl2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
{
    r->type = <%=name%>_LONG;

    if (a->shortVal < 0)
    {
        int64_t a_shortVal = a->shortVal;
        <%=name%>_rawMMul1(r->longVal, b->longVal, -a_shortVal);""","""static inline void mul_s1nl2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
{
    r->type = <%=name%>_LONG;

    if (a->shortVal < 0)
    {
        int32_t a_shortVal = 0u - (uint32_t)a->shortVal;
        <%=name%>_rawMMul1(r->longVal, b->longVal, a_shortVal);""")]
FILES={"demo.cpp":r'''
#include "demo.h"
#include <climits>
int main() {
    Z v("123456789123456789123456789");
    for (int s : {-1, -5, INT_MIN, INT_MIN + 1, INT_MAX}) {
        FrElement a = S(s), b = LM(v), r; Fr_mul(&r, &a, &b); is("short * Montgomery", val(r), red(v * s));
        Fr_mul(&r, &b, &a); is("Montgomery * short", val(r), red(v * s));
    }
    return bad;
}
'''}
DEMO='''gen $BN_R Fr
build_gen "$HERE/demo.cpp"
"$W/demo" && build_asm "$HERE/demo.cpp" && "$W/demo"
'''
