#!/bin/bash
# Builds the IR dumper used by every check. Offline; needs clang-18 + LLVM headers (pre-installed).
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
if [ ! -x build/irdump ] || [ tool/irdump.cpp -nt build/irdump ]; then
	clang++-18 -O1 -w $(llvm-config-18 --cxxflags) tool/irdump.cpp -o build/irdump.tmp.$$ -L"$(llvm-config-18 --libdir)" -lLLVM-18
	mv build/irdump.tmp.$$ build/irdump
fi
echo setup ok
