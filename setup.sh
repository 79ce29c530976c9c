#!/bin/bash
# Nothing has to be prepared: every check builds what it needs. This only fails early when a tool is missing.
. "$(dirname "$0")/tools/env.sh"
command -v cargo >/dev/null && command -v lean >/dev/null || { echo "cargo or lean is missing"; exit 1; }
bash "$(dirname "$0")/tools/mkrsx.sh"
