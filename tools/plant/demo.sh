#!/bin/bash
# Builds demo.cpp (beside this file) against the library that build.sh made from the tree in the
# current directory, and runs it: exit 0 if the behaviour is as it should be.
set -e
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'find "$T" -delete' EXIT
find "$PWD/_build/src" -name '*.o' | xargs ar rcs "$T/lib.a"
g++ -std=gnu++17 -O0 -g -m32 -Isrc -D_GNU_SOURCE -DCONFIG_C3P_CBOR -DCONFIG_C3P_M2M_SUPPORT -DCONFIG_C3P_IMG_SUPPORT -DCONFIG_C3P_TRACE_ENABLED \
  -fsingle-precision-constant -fno-rtti -fno-exceptions -w -o "$T/demo" "$D/demo.cpp" "$T/lib.a" -lm
timeout 120 "$T/demo"
