#!/bin/bash
# check.sh <PROPERTY> [quick|thorough]
# Builds the model checker for the property from /repo's working tree and runs it.
set -u
here=$(cd "$(dirname "$0")" && pwd)
id=$1 tier=${2:-${VERIF_TIER:-quick}}
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR="$here/target" VERIF_ROOT="$here" VERIF_SEED=${VERIF_SEED:-1}
unset CARGO_INCREMENTAL RUSTFLAGS
crate=$(awk -v id="$id" '$1==id {print $2}' "$here/checks.txt")
# the checker, and other programs that it runs
packages=$(awk -v id="$id" '$1==id {for (i=2; i<=NF; i++) print "-p", $i}' "$here/checks.txt")
[ -n "$crate" ] || { echo "unknown property $id" >&2; exit 2; }
mkdir -p "$here/evidence"
log="$here/target/build-$id.log"
mkdir -p "$here/target"
if ! (cd "$here/mc" && cargo build --offline -q $packages) >"$log" 2>&1; then
  echo "build of $crate failed" >&2
  tail -60 "$log" >&2
  exit 2
fi
# memory without end ends in an abort, which the checker reports, and not in the sandbox ending it
ulimit -v 25165824
exec "$here/target/debug/$crate" "$id" "$tier"
