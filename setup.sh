#!/bin/bash
# builds the harness crates once, so that the checks find their dependencies compiled
cd "$(dirname "$0")" || exit 1
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/build/target" CARGO_TERM_COLOR=never
for c in harness/*/; do
  [ -f "$c/Cargo.toml" ] || continue
  (cd "$c" && cargo build --offline --message-format=short 2>&1 | tail -3)
done
mkdir -p build/stamps evidence
python3 - <<'PY'
import sys; sys.path.insert(0, '.')
from vlib import common
import os
for c in os.listdir('harness'):
    p, h, _ = common.build_stamp('target-' + c); open(p, 'w').write(h)
PY
exit 0
