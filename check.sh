#!/bin/bash
# check.sh <property> [--tier quick|thorough] [--seed N] [--case K] [--scale F]
# Builds the monitor harness against /repo's working tree and runs one property's check.
set -u
root="$(cd "$(dirname "$0")" && pwd)"
export RUSTUP_TOOLCHAIN="${VMON_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}" CARGO_NET_OFFLINE=true VMON_ROOT="$root"
log="$(mktemp)"
if ! cargo build --release --offline --locked --quiet --manifest-path "$root/harness/Cargo.toml" --target-dir "$root/.build" >"$log" 2>&1; then
  grep -E "^error" -A 12 "$log" | head -60 >&2
  rm -f "$log"
  echo "ERROR: the harness did not build against /repo" >&2
  exit 2
fi
rm -f "$log"
[ "${1:-}" = build ] && exit 0
exec "$root/.build/release/vmon" "$@"
