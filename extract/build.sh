#!/bin/bash
# Builds the extractor into /verif/build (git-ignored).
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$here/../build
mkdir -p "$out"
sum=$(sha256sum "$here/rsx.cc" | cut -c1-64)
if [ -x "$out/rsx" ] && [ "$(cat "$out/rsx.sum" 2>/dev/null)" = "$sum" ]; then exit 0; fi
CLANGCPP=$(ls /usr/lib/llvm-18/lib/libclang-cpp.so* /usr/lib/x86_64-linux-gnu/libclang-cpp.so.18* 2>/dev/null | head -1)
LLVMSO=$(ls /usr/lib/llvm-18/lib/libLLVM*.so* /usr/lib/x86_64-linux-gnu/libLLVM*18*.so* 2>/dev/null | head -1)
tmp=$(mktemp "$out/rsx.XXXXXX")
clang++-18 -std=c++17 -O1 -fno-rtti -fno-exceptions -I/usr/lib/llvm-18/include -D_GNU_SOURCE \
  -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  "$here/rsx.cc" -o "$tmp" $CLANGCPP $LLVMSO -Wl,-rpath,/usr/lib/llvm-18/lib
mv -f "$tmp" "$out/rsx"
echo "$sum" > "$out/rsx.sum"
