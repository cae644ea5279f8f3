#!/bin/bash
# build the translator (needs only the installed LLVM 18)
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/../build}
mkdir -p "$out"
if [ ! -x "$out/ll2c" ] || [ "$here/ll2c.cpp" -nt "$out/ll2c" ] || [ "$here/models.inc" -nt "$out/ll2c" ]; then
  /usr/lib/llvm-18/bin/clang++ -std=c++17 -O1 -fno-exceptions -fno-rtti -w -I/usr/lib/llvm-18/include "$here/ll2c.cpp" -o "$out/ll2c.tmp.$$" -L/usr/lib/llvm-18/lib -lLLVM-18
  mv "$out/ll2c.tmp.$$" "$out/ll2c"
fi
