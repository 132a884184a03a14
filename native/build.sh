#!/bin/bash
# native/build.sh BUILD: tools of the native replay
set -e
B=$1; D=$(cd "$(dirname "$0")" && pwd)
LL=llvm-config-18
[ "$B/vpinst" -nt "$D/vpinst.cpp" ] || clang++ -std=c++17 -O1 $($LL --cppflags) "$D/vpinst.cpp" -o "$B/vpinst" $($LL --ldflags --libs core irreader linker bitwriter support)
[ "$B/rt_native.o" -nt "$D/rt_native.cpp" ] || clang++ -std=c++17 -O1 -g -c "$D/rt_native.cpp" -o "$B/rt_native.o"
