#!/bin/bash
# Nothing to build ahead: every check compiles what it needs from /repo. Verify that the tools are there.
cd "$(dirname "$0")" || exit 1
for t in clang++ opt g++ /opt/veriftools/pyvenv/bin/python3; do command -v $t >/dev/null || [ -x "$(ls /usr/lib/llvm-18/bin/$t 2>/dev/null)" ] || { echo "missing $t"; exit 1; }; done
mkdir -p evidence
/opt/veriftools/pyvenv/bin/python3 -m compileall -q engine && /opt/veriftools/pyvenv/bin/python3 -c 'import z3'
