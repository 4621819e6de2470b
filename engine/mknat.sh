#!/bin/bash
# mknat.sh spec.cpp out [extra flags]: native build of a specification against the real code
set -e
src=$1; out=$2; shift 2
/usr/bin/clang++ -std=gnu++17 -O1 -g1 -fsanitize=fuzzer,address,undefined -fno-sanitize=vptr,function,alignment,pointer-overflow -fno-sanitize-recover=undefined -fno-rtti \
 -D_DEBUG=1 -DSTORED_DRAFT_API=1 -fno-access-control -Wno-everything "$@" -I/verif/specs -I/repo/include "$src" /verif/specs/vf_native.cpp -o "$out"
