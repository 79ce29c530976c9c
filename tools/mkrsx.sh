#!/bin/bash
# builds tools/rsx into .work/tools
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
cd "$here/rsx" && CARGO_TARGET_DIR="$here/../.work/tools" RUSTFLAGS=-Awarnings exec cargo build --release --offline -q
