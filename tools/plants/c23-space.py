PROPERTY="C23"
NEEDS="tuple text with white space other than blanks, such as a new line"
BREAKS="only blanks are removed; tabs and line ends stay in the components"
EDITS=[("c/splitparstr.cpp","if (std::isspace(s[i])) continue;","if (s[i] == ' ') continue;")]
FILES={"demo.cpp":r'''
#include <cstdio>
#include "splitparstr.hpp"
int main() {
    int bad = 0;
    for (std::string s : {"(1, 2)", "(1,\n 2)", "\t(1\t,2 )\r\n", "( ( 1 ) ,(2))"}) {
        auto v = splitParStr(s);
        if (v.size() != 2 || v[0] != "1" || v[1] != "2") { printf("wrong components\n"); bad = 1; }
    }
    return bad;
}
'''}
KIT=False
DEMO='''$CC -I"$REPO/c" "$HERE/demo.cpp" "$REPO/c/splitparstr.cpp" -o "$W/demo" || exit 2
"$W/demo"
'''
