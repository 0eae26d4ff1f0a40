#!/bin/bash
# nothing is compiled ahead of time: every check re-extracts the IR of /repo's current sources.  Only verify the tools exist.
cd "$(dirname "$0")" || exit 1
for t in /usr/bin/clang /usr/bin/gcc cmake python3-vt; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
ls /usr/bin/opt* >/dev/null || exit 1
mkdir -p evidence/replay
python3-vt -c "import z3; import irv.sym, irv.front" || exit 1
