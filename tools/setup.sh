#!/bin/sh
# Verifies the toolchain the checks need. Every check builds its own instrumented objects from /repo into .build.
set -e
cd "$(dirname "$0")/.."
for t in clang clang++ ninja python3 llvm-symbolizer; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
mkdir -p evidence .build
python3 -c 'import sys; sys.path.insert(0,"lib"); import mbuild, vrun'
