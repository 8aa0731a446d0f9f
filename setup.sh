#!/bin/bash
# nothing to build: checks interpret the current sources; make sure the tools are there
cd "$(dirname "$0")" || exit 1
test -x /usr/lib/llvm-18/bin/clang++ && test -x /usr/lib/llvm-18/bin/llvm-link || exit 1
/opt/veriftools/pyvenv/bin/python -c 'import z3' || exit 1
chmod +x check
