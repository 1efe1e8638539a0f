#!/bin/bash
# every replay driver compiles and is quiet on the unchanged tree
cd "$(dirname "$0")/.."
for f in replay/c*.cpp; do p=$(basename $f .cpp | tr c C); o=$(python3-vt tools/rp.py $p 2>&1); echo "$p $(echo "$o" | head -c 6) compiled: $(echo "$o" | grep -o 'flags [^:]*: exit [0-9a-z]*' | grep -o 'exit .*' | tr '\n' ' ') runs: $(grep -c '^// RUN' $f)"; done
