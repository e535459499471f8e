PROPERTY="C12"
NEEDS="two generated fields linked into one program on the portable backend"
BREAKS="half is no longer local to its file, so the second field's definition clashes at link time"
EDITS=[("src/fr_generic.cpp.ejs","static <%=name%>RawElement half = {","extern <%=name%>RawElement half;\n<%=name%>RawElement half = {")]
FILES={"demo.cpp":r'''
#include "fr.hpp"
#include "fq.hpp"
int main() { return RawFr::field.eq(RawFr::field.one(), RawFr::field.one()) && RawFq::field.eq(RawFq::field.one(), RawFq::field.one()) ? 0 : 1; }
'''}
DEMO='''gen $BN_R Fr
gen $BN_Q Fq
$CC -I"$W" "$HERE/demo.cpp" "$W"/fr.cpp "$W"/fr_generic.cpp "$W"/fr_raw_generic.cpp "$W"/fq.cpp "$W"/fq_generic.cpp "$W"/fq_raw_generic.cpp -o "$W/demo" -lgmp || exit 1
"$W/demo"
'''
