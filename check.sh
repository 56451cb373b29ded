#!/bin/bash
# check.sh <property> <tier>: rebuilds the harness against /repo's working tree and runs the check
id=$1
tier=${2:-${VERIF_TIER:-quick}}
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR="${VERIF_DIR:-$here}"
cd "$here/harness" || exit 2
dir=target
feat=()
if [ "$id" = C22 ]; then
  dir=target/cli
  feat=(--features cli)
fi
log=$(mktemp)
if ! cargo build --offline -q "${feat[@]}" --target-dir "$dir" >"$log" 2>&1; then
  tail -60 "$log" >&2
  rm -f "$log"
  echo "the harness does not build against /repo" >&2
  exit 2
fi
if [ "$tier" = thorough ] && [ "$id" != C22 ]; then
  # the coverage-guided search: the library alone is instrumented
  if ! RUSTC_WRAPPER="$here/harness/rustc-cov.sh" cargo build --offline -q --features fuzz \
    --bin fitsfuzz --target-dir target/fuzz >"$log" 2>&1; then
    tail -60 "$log" >&2
    rm -f "$log"
    echo "the coverage-guided search does not build" >&2
    exit 2
  fi
  export FITSFUZZ_BIN="$here/harness/target/fuzz/debug/fitsfuzz"
fi
rm -f "$log"
exec "$dir/debug/fitscheck" "$id" --tier "$tier"
