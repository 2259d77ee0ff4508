#!/bin/bash
# nothing is installed or built ahead of the checks: every check compiles /repo's current sources itself
set -e
cd "$(dirname "$0")"
mkdir -p evidence
for x in clang++ g++ python3-vt z3-new cvc5 llvm-link-18; do command -v $x >/dev/null || { echo "missing tool: $x"; exit 1; }; done
python3-vt -c 'import z3'
python3 gen_manifest.py
