#!/bin/bash
# Builds the IR dumper used by every check (offline, ~5 s).
set -e
cd "$(dirname "$0")"
mkdir -p .build evidence
/usr/bin/clang++-18 -O1 -I/usr/lib/llvm-18/include -std=c++17 engine/irdump.cpp -o .build/irdump.tmp -L/usr/lib/llvm-18/lib -lLLVM-18
mv .build/irdump.tmp .build/irdump
