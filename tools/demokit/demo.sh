#!/bin/bash
# builds demo.cpp against the libraries of the repository in the current directory and runs it
d=$(cd "$(dirname "$0")" && pwd); r=$PWD; t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
clang++-18 -std=c++11 -stdlib=libc++ -fopenmp -O1 -w -fms-extensions -include "$d/compat.h" -I"$d" \
  -I$r/basiclog/include -I$r/basicsys/include -I$r/basicmath/include -I$r/basicimg/include \
  -isystem $r/basic_thrid_libs/lib_opencv/341/include "$d/demo.cpp" -o "$t/demo" \
  "$d/cv_stub.cpp" -Wl,--start-group $r/_build/libbasicimg.a $r/_build/libbasicmath.a $r/_build/libbasicsys.a $r/_build/libbasiclog.a -Wl,--end-group \
  -Wl,-rpath,/usr/lib/llvm-18/lib -lpthread || exit 3
cd "$t" && timeout 200 ./demo
