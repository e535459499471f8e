# Sourced by demo.sh: HERE is the demo's folder, REPO the tree it is run in, W a scratch directory.
set -u
HERE="$(cd "$(dirname "$0")" && pwd)"; REPO="$PWD"; W="$(mktemp -d)"; trap 'rm -rf "$W"' EXIT
export NODE_PATH="$HERE/shims" PATH="/usr/local/bin:/usr/bin:/bin:$PATH"
gen() { # prime name : the generated sources of a field, in $W
    node -e '
const fs=require("fs"),path=require("path"),bigInt=require("big-integer");
const {buildZqField}=require(path.join(process.argv[1],"index.js"));
(async()=>{const n=process.argv[4],s=await buildZqField(bigInt(process.argv[3]),n),b=path.join(process.argv[2],n.toLowerCase());
const f={asm:".asm",hpp:".hpp",cpp:".cpp",element_hpp:"_element.hpp",generic_cpp:"_generic.cpp",raw_generic_cpp:"_raw_generic.cpp",raw_arm64_s:"_raw_arm64.s"};
for(const k in f)fs.writeFileSync(b+f[k],s[k]);})().catch(e=>{console.error(e);process.exit(1)})' "$REPO" "$W" "$1" "$2" || exit 2
}
asmobj() { nasm -felf64 "$W/$1.asm" -o "$W/$1.o" || exit 2; }
CC="g++ -w -std=c++17 -O1 -pthread"
build_asm() { asmobj fr; $CC -DUSE_ASM -DARCH_X86_64 -I"$W" -I"$HERE" -I"$REPO/c" "$@" "$W/fr.cpp" "$W/fr.o" -o "$W/demo" -lgmpxx -lgmp || exit 2; }
build_gen() { $CC -I"$W" -I"$HERE" -I"$REPO/c" "$@" "$W/fr.cpp" "$W/fr_generic.cpp" "$W/fr_raw_generic.cpp" -o "$W/demo" -lgmpxx -lgmp || exit 2; }
BN_R=21888242871839275222246405745257275088548364400416034343698204186575808495617
BN_Q=21888242871839275222246405745257275088696311157297823662689037894645226208583
