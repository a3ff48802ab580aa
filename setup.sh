#!/bin/bash
# builds the LLVM front end of the verifier from the committed source
set -e
cd "$(dirname "$0")"
mkdir -p build
L=/usr/lib/llvm-18/bin/llvm-config
clang++ -O1 -std=c++17 irv/front.cpp -o build/irvfront.$$ $($L --cxxflags --ldflags) -fexceptions -frtti $($L --libs --link-shared) 2>/dev/null
mv build/irvfront.$$ build/irvfront
