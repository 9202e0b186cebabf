#!/bin/bash
# check.sh <Cnn> <quick|thorough>: build the monitor against /repo's working tree and run one check.
# exit 0 held, exit 1 + VIOLATION line, anything else: no verdict.
set -u
cd "$(dirname "$0")/monitor" || exit 2
export VERIF_DIR=${VERIF_DIR:-$(cd .. && pwd)}
prop=${1:?property} tier=${2:?tier}
mkdir -p "$VERIF_DIR/evidence" "$VERIF_DIR/replay"
log=$(mktemp "${TMPDIR:-/tmp}/pcimon.XXXXXX") || exit 2
trap 'rm -f "$log"' EXIT
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR CARGO_ENCODED_RUSTFLAGS

# cargo goes by modification times: forget the library's, so that its present contents count
forget() {
  rm -rf "$1"/debug/.fingerprint/pcics-* "$1"/release/.fingerprint/pcics-* "$1"/*/*/.fingerprint/pcics-*
}
# build <target dir> <cargo arguments...>
build() {
  local dir=$1; shift
  forget "$dir"
  if ! CARGO_TARGET_DIR=$dir cargo "$@" --offline >"$log" 2>&1; then
    cat "$log" >&2
    echo "no verdict: the monitor does not build against this tree" >&2
    exit 3
  fi
}
# crash <what> <how>: the code under test took the monitor down with it
crash() {
  local f=$VERIF_DIR/replay/$prop.txt
  { echo "property=$prop"; echo "kind=crash"; echo "seed=${VERIF_SEED:-1}"; echo "what=$1 $2"; tail -c 4000 "$log"; } >"$f"
  echo "  $1 $2"
  echo "VIOLATION property=$prop replay=$f"
  exit 1
}
# run <what> <command...>: pass on verdicts, turn a crash of the code under test into one
run() {
  local what=$1; shift
  "$@" 2>"$log"
  local rc=$?
  cat "$log" >&2
  case $rc in
    0) return 0 ;;
    1) exit 1 ;;
    132 | 134 | 135 | 136 | 139) crash "$what" "ended by signal $((rc - 128)): $*" ;;
    *) echo "no verdict: $what exited with $rc" >&2; exit 3 ;;
  esac
}

build target build
if [ "$prop" = C13 ]; then
  # the other way of stepping through Enhanced Allocation entries is a build-time choice
  build target/ea build --features ea_real
  VERIF_EVIDENCE=$PWD/target/ea run "alternative entry stepping" target/ea/debug/pcimon run C13 "$tier"
fi
if [ "$tier" = thorough ]; then
  . ./thorough.sh
fi
run "monitor" target/debug/pcimon run "$prop" "$tier"
