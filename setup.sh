#!/bin/sh
# Builds the IR readers (LLVM 18 C++ API) that the checks use.
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
for t in irdump loops; do
    g++ -O1 -std=c++17 -fno-rtti -I/usr/lib/llvm-18/include tool/$t.cpp -o build/$t.tmp -L/usr/lib/llvm-18/lib -lLLVM-18
    mv build/$t.tmp build/$t
done
python3 -m compileall -q engine >/dev/null 2>&1 || true
