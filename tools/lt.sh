#!/bin/bash
cd /verif
for f in "$@"; do timeout 800 bash tools/lk.sh /verif/lean/$f.lean /verif/.work/ldev 2>&1 | grep -v '^/app\|^/verif/.work\|search path entries' | head -${LINES_MAX:-80}; done
