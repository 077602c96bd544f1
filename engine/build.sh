#!/bin/bash
# builds the symbolic executor into /verif/build
set -e
d=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$d/build"
out="$d/build/sx"
if [ -x "$out" ] && [ "$out" -nt "$d/engine/sx.cpp" ]; then exit 0; fi
t=$(mktemp "$d/build/sx.XXXXXX")
g++ -O2 -std=c++17 -w $(llvm-config-18 --cxxflags | sed 's/-fno-exceptions//; s/-std=[^ ]*//') -fexceptions \
    "$d/engine/sx.cpp" -o "$t" $(llvm-config-18 --ldflags --libs core irreader support | tr '\n' ' ') -lz3 -lpthread
chmod +x "$t"
mv -f "$t" "$out"
