#!/bin/bash
# Builds demo.cpp against the sources of the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 1
trap 'rm -rf "$t"' EXIT
g++-9 -std=c++14 -O2 -DQUADIRON_USE_SIMD -mavx2 -I src -I _build/OFF/generated \
    "$here/demo.cpp" src/*.cpp -o "$t/demo" -lpthread || exit 1
cd "$t" && timeout 200 ./demo
