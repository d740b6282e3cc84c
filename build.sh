#!/bin/bash
# Builds the simulator against /repo's current working tree. Incremental; safe to call concurrently.
set -u
V="$(cd "$(dirname "$0")" && pwd)"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$V/.build/target"
export RUSTFLAGS="-Crelocation-model=static -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-prune-blocks=0 -Cllvm-args=-sanitizer-coverage-pc-table"
unset RUSTC_WRAPPER CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
mkdir -p "$V/.build/work"
exec 9>"$V/.build/lock"
flock 9
T=x86_64-unknown-linux-gnu
# sources are compared by content: timestamps of restored files can lie
SUM=$(cd /repo && find crates third-parties -type f \( -name '*.rs' -o -name '*.toml' \) -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum | sha256sum)
if [ "$(cat "$V/.build/stamp" 2>/dev/null)" != "$SUM" ]; then
  rm -f "$V/.build/stamp"
  (cd "$V/sim" && cargo +stable clean --offline --target $T -p qlab-error -p qlab-math -p qlab-time -p qlab-termstructure -p qlab-instrument -p calendar) >/dev/null 2>&1
fi
LOG="$V/.build/build.log"
if ! (cd "$V/sim" && cargo +stable build --offline --locked --target $T) >"$LOG" 2>&1; then
  tail -60 "$LOG" >&2
  exit 2
fi
echo "$SUM" >"$V/.build/stamp"
