#!/bin/bash
# compile.sh TU OUT.bc : lower one translation unit of /repo's current source
set -e
REPO=${REPO:-/repo}; HERE=$(cd "$(dirname "$0")" && pwd)
build() {
  clang++-18 -std=c++17 -O1 -Xclang -disable-llvm-passes -g -fstandalone-debug -fno-exceptions -DBOOST_FORCEINLINE=inline -w -emit-llvm -c $3 -I$HERE/stubs -I$REPO/include -I$REPO/src "$1" -o "$2.0"
}
# explicit instantiations are optional: fall back to the members the roots use
build "$1" "$2" "" 2>"$2.err" || build "$1" "$2" "-DNO_EXPLICIT"
opt-18 -passes='sroa' "$2.0" -o "$2"; rm -f "$2.0" "$2.err"
