#!/bin/bash
# Builds the symbolic executor; $1 = output binary.
set -e
D="$(cd "$(dirname "$0")" && pwd)"
OUT="$1"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
FL="-O2 -std=c++17 $(llvm-config-18 --cppflags) -fexceptions -fno-rtti -w"
clang++-18 $FL -c "$D/expr.cpp" -o "$T/expr.o" &
clang++-18 $FL -c "$D/vsym.cpp" -o "$T/vsym.o"
wait
clang++-18 "$T/expr.o" "$T/vsym.o" -o "$T/vsym" $(llvm-config-18 --ldflags --libs core irreader passes ipo bitwriter support demangle 2>/dev/null) -lz3
mkdir -p "$(dirname "$OUT")"
mv "$T/vsym" "$OUT"
