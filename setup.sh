#!/bin/bash
# Builds the harness crates once (each check rebuilds what it needs from /repo's working tree anyway).
cd "$(dirname "$0")" && . ./env.sh
for d in harness/*/; do
  [ -f "$d/Cargo.toml" ] && [ "$(basename "$d")" != util ] || continue
  [ -f "$d/Cargo.lock" ] || cp /opt/vp/oaks/Cargo.lock "$d/Cargo.lock"
  (cd "$d" && timeout 700 cargo build --offline 2>&1 | grep -E "^error|Finished" | tail -5)
done
exit 0
