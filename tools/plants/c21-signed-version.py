PROPERTY='C21'
NEEDS='a file read from disk whose version has the top bit set'
BREAKS='the version is compared as a signed number, so such a file is accepted'
EDITS=[('c/binfile_utils.cpp', """        munmap(addrmm, sb.st_size);
        close(fd);

        type.assign((const char *)addr, 4);
        pos = 4;

        if (type != _type)
        {
            throw new std::invalid_argument("Invalid file type. It should be " + _type + " and it us " + type);
        }

        version = readU32LE();
        if (version > maxVersion)""", """        munmap(addrmm, sb.st_size);
        close(fd);

        type.assign((const char *)addr, 4);
        pos = 4;

        if (type != _type)
        {
            throw new std::invalid_argument("Invalid file type. It should be " + _type + " and it us " + type);
        }

        version = readU32LE();
        if ((int32_t)version > (int32_t)maxVersion)""")]
FILES={"thread_utils.hpp":open("/verif/lib/cpp/shims/thread_utils.hpp").read(),"demo.cpp":r'''
#include <cstdio>
#include <stdexcept>
#include "binfile_utils.hpp"
int main(int, char **v) {
    int bad = 0;
    for (uint32_t ver : {0u, 1u, 2u, 3u, 0x7fffffffu, 0x80000000u, 0xffffffffu}) {
        FILE *f = fopen(v[1], "wb"); uint32_t h[2] = {ver, 0}; fwrite("abcd", 1, 4, f); fwrite(h, 4, 2, f); fclose(f);
        bool thrown = false;
        try { BinFileUtils::BinFile b(std::string(v[1]), "abcd", 2); } catch (std::invalid_argument *e) { thrown = true; }
        if (thrown != (ver > 2)) { printf("version %u\n", ver); bad = 1; }
    }
    return bad;
}
'''}
KIT=False
DEMO='''$CC -fopenmp -I"$HERE" -I"$REPO/c" "$HERE/demo.cpp" "$REPO/c/binfile_utils.cpp" -o "$W/demo" || exit 2
"$W/demo" "$W/file"
'''
