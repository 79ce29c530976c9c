#!/bin/bash
# hb.sh BIN FEATURE [args]: refresh the view, build and run one harness binary (development helper)
here=$(cd "$(dirname "$0")" && pwd); . "$here/env.sh"
python3 "$here/view.py" || exit 1
cd "$here/../harness" && CARGO_TARGET_DIR="$here/../.work/target" RUSTFLAGS=-Awarnings cargo build --offline -q --features "$2,internals" --bin "$1" 2>&1 | grep -E "^error|^  *-->|^\s+\|" -A4 | head -${HBN:-60}
[ "${PIPESTATUS[0]}" = 0 ] || exit 1
exec "$here/../.work/target/debug/$1" "${@:3}"
