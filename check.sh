#!/bin/bash
# usage: check.sh <ID> [quick|thorough]   |   check.sh replay <file>   |   check.sh setup
# Builds the explorer against /repo's current working tree, then runs one check.
cd "$(dirname "$0")" || exit 2
export VPMC_ROOT="$PWD"
. /opt/vp/env.sh
export CARGO_INCREMENTAL=0
unset CARGO_PROFILE_DEV_DEBUG
T="$PWD/target"
mkdir -p "$T"
build() {
  # never trust modification times: force a rebuild of the library when its content changed
  local h
  h=$( (cd /repo && find src Cargo.toml -type f | sort | xargs -d '\n' sha256sum) | sha256sum)
  if [ "$h" != "$(cat "$T/src.sha" 2>/dev/null)" ]; then
    rm -rf "$T"/debug/.fingerprint/vatsim-parser-* "$T/src.sha"
  fi
  (cd harness && cargo build --offline --locked --target-dir "$T") >"$T/build.log" 2>&1 || { tail -60 "$T/build.log" >&2; return 1; }
  echo "$h" >"$T/src.sha"
}
(
  flock 9
  build
) 9>"$T/lock" || exit 2
case "$1" in
  setup) exit 0 ;;
  replay) exec "$T/debug/mc" replay "$2" ;;
  *) exec "$T/debug/mc" "$1" "${2:-${VERIF_TIER:-quick}}" ;;
esac
