#!/bin/bash
# mkir.sh spec.cpp out.ll [extra flags]
set -e
src=$1; out=$2; shift 2
/usr/bin/clang++ -std=gnu++17 -O0 -Xclang -disable-O0-optnone -fno-discard-value-names -gline-tables-only -fno-rtti \
 -DVF_PROVE -D_DEBUG=1 -DSTORED_DRAFT_API=1 -I/verif/specs -I/repo/include -fno-access-control -Wno-everything "$@" -S -emit-llvm "$src" -o "$out.0"
/usr/bin/opt-18 -S -passes='function(sroa,instsimplify,simplifycfg,early-cse,loop-simplify)' "$out.0" -o "$out"
