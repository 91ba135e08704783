#!/bin/bash
# cc.sh HARNESS.cpp OUT.bc BUILD_DIR [extra flags...]   compile a harness to linked bitcode
set -e
H="$1"; O="$2"; B="$3"; shift 3
D="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
REPO="${REPO:-/repo}"
INC="-I$D -I$D/../harness -I$REPO/include -I/opt/vp/deps/tomlplusplus/include -I$REPO"
DEF="-DSVS_VERSION_MAJOR=0 -DSVS_VERSION_MINOR=0 -DSVS_VERSION_PATCH=4 -DSVS_HAVE_MKL=0 -DSVS_ENABLE_NUMA=0 -DSVS_INITIALIZE_LOGGER=1 -DSVS_CHECK_BOUNDS=1 -DSYMX=1 -D_GLIBCXX_ASSERTIONS -D_GLIBCXX_EXTERN_TEMPLATE=0 -DFMT_SHARED"
FL="-std=c++20 -O2 -g1 -w -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -ffp-contract=off -mno-sse4.2 -fno-strict-aliasing -fsized-deallocation"
if [ ! -e "$B/rt.bc" ] || [ "$D/rt.cpp" -nt "$B/rt.bc" ]; then clang++-18 $FL $INC $DEF -D_GLIBCXX_ASSERTIONS -c -emit-llvm -fno-builtin -fno-access-control "$D/rt.cpp" -o "$B/rt.$$.bc" && mv "$B/rt.$$.bc" "$B/rt.bc"; fi
[ "$H" = --rt-only ] && exit 0
case " $* " in *" -march="*) FL="${FL/-mno-sse4.2 /}";; esac
clang++-18 $FL $INC $DEF "$@" -c -emit-llvm "$H" -o "$O.h.bc"
llvm-link-18 "$O.h.bc" "$B/rt.bc" -o "$O"
rm -f "$O.h.bc"
