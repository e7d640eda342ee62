#!/bin/bash
# builds the symbolic executor into /verif/build (git-ignored); rebuilt only when its sources changed
set -e
D=$(cd "$(dirname "$0")" && pwd); B="$D/../build"; mkdir -p "$B"
Z3=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
H=$(cat "$D"/vsym.cpp "$D"/*.inc "$0" | sha256sum | cut -c1-16)
[ -x "$B/vsym" ] && [ "$(cat "$B/vsym.sha" 2>/dev/null)" = "$H" ] && exit 0
g++ -std=c++17 -O2 -g0 -fno-rtti -w -I"$Z3/include" -isystem "$(llvm-config-18 --includedir)" "$D/vsym.cpp" -o "$B/vsym.$$" -L"$Z3/lib" -Wl,-rpath,"$Z3/lib" -lz3 $(llvm-config-18 --ldflags) -lLLVM-18 -lpthread
mv "$B/vsym.$$" "$B/vsym"; echo "$H" > "$B/vsym.sha"
