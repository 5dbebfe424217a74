#!/bin/bash
# builds the IR exporter and the LP kernel of the abstract domain
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
L=$(llvm-config-18 --libdir 2>/dev/null || echo /usr/lib/llvm-18/lib)
I=$(llvm-config-18 --includedir 2>/dev/null || echo /usr/lib/llvm-18/include)
g++ -O1 -std=c++17 -fno-rtti -I$I -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS tools/irdump.cpp -o build/irdump.tmp -L$L -lLLVM-18
mv build/irdump.tmp build/irdump
g++ -O2 -std=c++17 -shared -fPIC tools/lp.cpp -o build/liblp.tmp -lgmpxx -lgmp
mv build/liblp.tmp build/liblp.so
