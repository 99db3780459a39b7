#!/bin/sh
# build.sh OUT
set -e
clang++ -std=c++17 -O2 -w $(llvm-config-18 --cxxflags | sed 's/-fno-exceptions//;s/-std=[^ ]*//') -fexceptions \
  "$(dirname "$0")/symex.cpp" -o "$1" $(llvm-config-18 --ldflags --libs core irreader support) -lz3
