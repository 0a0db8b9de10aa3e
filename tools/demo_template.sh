#!/bin/bash
# Builds the small program beside this script against /repo's sources and
# libraries and runs it in a scratch directory: 0 = the behaviour is right.
here=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
R=$PWD
T=$R/3rdparty
g++ -std=c++17 -O1 -w -DGCC_COMPILER -DLITTLE_ENDIAN_ARCHITECTURE -I$R/src/include -I$R/_build/src/include -I$R/_build/src \
  -I$T/einhard -I$(ls -d $T/yaml-cpp-*/include) -I/usr/include/eigen3 \
  -I$(ls -d $T/Cuba-*) \
  "$here/demo.cc" -o "$W/demo" \
  $R/_build/src/libsmash.a $R/_build/3rdparty/einhard/libeinhard.a \
  $(ls $R/_build/3rdparty/Cuba-*/src/*/lib*.a) \
  $R/_build/3rdparty/yaml-cpp-*/libyaml-cpp.a -lgsl -lgslcblas -lm -lstdc++fs -lpthread \
  || exit 99
cd "$W" && ./demo
