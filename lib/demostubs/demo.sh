#!/bin/bash
# builds demo.cpp against the current source tree and runs it
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d)
trap '/bin/rm -rf "$T"' EXIT
g++ -std=c++17 -O1 -g -w -include cstdint -include climits -DBOOST_FORCEINLINE=inline $(cat "$D/flags" 2>/dev/null) -I"$D/stubs" -Iinclude -Isrc "$D/demo.cpp" -o "$T/demo" -pthread || exit 90
timeout 120 "$T/demo"
