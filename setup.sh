#!/bin/bash
# nothing to build ahead: each check compiles /repo itself.  Verify that the tools are present.
cd "$(dirname "$0")" || exit 2
set -e
clang++-18 --version >/dev/null
opt-18 --version >/dev/null
llvm-link-18 --version >/dev/null
python3-vt -c 'import z3, cvc5'
mkdir -p evidence out
