PROPERTY='C24'
NEEDS='two threads that split texts at the same time'
BREAKS='the text collected so far is kept in one string for the whole program'
EDITS=[("c/splitparstr.cpp","    std::string accS;\n","    static std::string accS;\n    accS.clear();\n")]
FILES={"demo.cpp":r'''
#include <thread>
#include <atomic>
#include <cstdio>
#include "splitparstr.hpp"
int main() {
    std::atomic<int> wrong(0); std::vector<std::thread> t;
    for (int i = 0; i < 4; i++) t.emplace_back([&, i] {
        std::string a(20 + i, 'a' + i), b(30, 'f' + i), s = "( " + a + " , (" + b + ") )";
        for (int k = 0; k < 3000; k++) { auto v = splitParStr(s); if (v.size() != 2 || v[0] != a || v[1] != b) wrong++; }
    });
    for (auto &x : t) x.join();
    if (wrong) printf("%d wrong\n", (int)wrong);
    return wrong != 0;
}
'''}
KIT=False
DEMO='''$CC -I"$REPO/c" "$HERE/demo.cpp" "$REPO/c/splitparstr.cpp" -o "$W/demo" -pthread || exit 2
for i in 1 2 3; do "$W/demo" > /dev/null 2>&1 || exit 1; done
'''
