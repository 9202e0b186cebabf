# Extra builds of the thorough tier, sourced by check.sh.
# optimised, without debug assertions and overflow checks: what users run
build target/rel build --release
VERIF_EVIDENCE=$PWD/target/rel run "release build" target/rel/release/pcimon run "$prop" quick

# soft <target dir> <RUSTFLAGS> <cargo arguments...>: a build that may be impossible here
soft() {
  local dir=$1 flags=$2; shift 2
  forget "$dir"
  RUSTFLAGS=$flags CARGO_TARGET_DIR=$dir cargo +nightly "$@" --offline --target x86_64-unknown-linux-gnu >"$log" 2>&1 && return 0
  echo "note: no build with $flags here" >&2
  return 1
}
san=x86_64-unknown-linux-gnu/debug/pcimon
case $prop in
  C01 | C20)
    if soft target/asan -Zsanitizer=address build; then
      VERIF_EVIDENCE=$PWD/target/asan VERIF_DEADLINE=240 ASAN_OPTIONS=abort_on_error=1 \
        run "AddressSanitizer build" target/asan/$san run "$prop" quick
    fi ;;
esac
case $prop in
  C23)
    if soft target/tsan -Zsanitizer=thread build -Zbuild-std; then
      VERIF_EVIDENCE=$PWD/target/tsan VERIF_DEADLINE=240 TSAN_OPTIONS="halt_on_error=1 exitcode=134" \
        run "ThreadSanitizer build" target/tsan/$san run "$prop" quick
    fi ;;
esac
case $prop in
  C01 | C23)
    # the undefined-behaviour interpreter, on a short course, several seeds side by side
    forget target/miri
    pids=()
    for s in 1 2 3 4 5 6; do
      MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-seed=$s" VERIF_SEED=$((${VERIF_SEED:-1} * 100 + s)) VERIF_REPO=/none VERIF_THREADS=1 \
        VERIF_DEADLINE=100000 VERIF_EVIDENCE=$PWD/target/miri CARGO_TARGET_DIR=target/miri \
        cargo +nightly miri run --offline -- run "$prop" small >"$log.miri$s" 2>&1 &
      pids+=($!)
    done
    for s in 1 2 3 4 5 6; do
      wait "${pids[$((s - 1))]}"
      rc=$?
      cp "$log.miri$s" "$log"
      rm -f "$log.miri$s"
      if grep -q '^VIOLATION' "$log"; then
        cat "$log"
        exit 1
      elif grep -q 'Undefined Behavior\|Data race' "$log"; then
        crash "Miri" "reported undefined behaviour"
      elif [ $rc -ne 0 ]; then
        tail -5 "$log" >&2
        echo "note: no answer from Miri (exit $rc)" >&2
      fi
    done ;;
esac
