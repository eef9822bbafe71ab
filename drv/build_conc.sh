#!/bin/bash
# build_conc.sh REPO SRC OUT FLAGS...: the driver instrumented, the runtime not
set -e
repo=$1; src=$2; out=$3; shift 3
here=$(dirname "$src")
clang++ "$@" -fsanitize=thread -femulated-tls -mllvm -tsan-instrument-func-entry-exit=0 -c "$src" -o "$out.o"
clang++ -std=c++17 -O1 -w -c "$here/vtrt.cpp" -o "$out.rt.o"
clang++ -no-pie -Wl,--wrap=malloc,--wrap=free "$out.o" "$out.rt.o" -o "$out" -ldl
rm -f "$out.o" "$out.rt.o"
