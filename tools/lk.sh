#!/bin/bash
# lk.sh SRC.lean OUTDIR : compile one Lean file to OUTDIR/<Name>.olean
n=$(basename "$1" .lean)
[ "$1" -ef "$2/$n.lean" ] || cp "$1" "$2/$n.lean"
cd "$2" && LEAN_PATH="$2:$LEAN_PATH" exec lean -DmaxRecDepth=4000 -o "$n.olean" "$n.lean"
