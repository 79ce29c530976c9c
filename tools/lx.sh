#!/bin/bash
# lx.sh CFG... : extract the configurations and compile their modules into .work/ldev (development only)
cd /verif; mkdir -p .work/ldev .work/t
for m in RsAttr RsPrelude; do [ .work/ldev/$m.olean -nt lean/$m.lean ] || bash tools/lk.sh /verif/lean/$m.lean /verif/.work/ldev | head -20; done
for c in "$@"; do
  ${RSX:-.work/tools/release/rsx} extract lean/cfg/$c.json ${VERIF_REPO:-/repo} .work/t
  for m in $(python3 -c "import json;print(*[m['name'] for m in json.load(open('lean/cfg/$c.json'))['modules']])"); do
    bash tools/lk.sh /verif/.work/t/$m.lean /verif/.work/ldev 2>&1 | grep -v '^/app\|^/verif/.work\|search path entries' | head -${LINES_MAX:-30}
  done
done
