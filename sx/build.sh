#!/bin/bash
# builds the symbolic executor (once; cached by content hash)
cd "$(dirname "$0")"; mkdir -p ../build
h=$(cat *.cpp *.hpp | sha256sum | cut -c1-16)
[ -x ../build/symx-$h ] && { ln -sfn symx-$h ../build/symx; exit 0; }
g++ -std=c++17 -O2 -w $(llvm-config-18 --cxxflags) -fexceptions -frtti engine.cpp -o ../build/symx.tmp.$$ $(llvm-config-18 --ldflags) -lLLVM-18 -lz3 -lgmpxx -lgmp || exit 2
mv ../build/symx.tmp.$$ ../build/symx-$h; ln -sfn symx-$h ../build/symx
