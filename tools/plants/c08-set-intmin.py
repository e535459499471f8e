PROPERTY="C08"
NEEDS="the most negative int as the value of RawFr::set"
BREAKS="the magnitude is taken in 32 bits, so INT_MIN becomes an element that is not -2^31"
EDITS=[("src/fr.cpp.ejs","""  mpz_set_si(mr, value);
  if (value < 0) {
      mpz_add(mr, mr, q);
  }
""","""  const unsigned long magnitude = value < 0 ? (int)(0u - (unsigned int)value) : value;
  mpz_set_ui(mr, magnitude);
  if (value < 0) {
      mpz_sub(mr, q, mr);
  }
""")]
FILES={"demo.cpp":r'''
#include "demo.h"
#include <climits>
int main() {
    for (int v : {0, 1, -1, INT_MAX, -INT_MAX, INT_MIN, 77, -77}) {
        RawFr::Element e; RawFr::field.set(e, v); is("set", val(e), red(Z(v)));
    }
    return bad;
}
'''}
DEMO='''gen $BN_R Fr
build_asm "$HERE/demo.cpp"
"$W/demo" && build_gen "$HERE/demo.cpp" && "$W/demo"
'''
