#!/bin/bash
# usage: check.sh <property> [quick|thorough]
# Rebuilds what it needs from /repo's working tree and runs one property's check.
# exit 0: held on everything explored; 1: VIOLATION line printed; 2/3: no answer (build or harness failure)
set -u
ID="$1"
TIER="${2:-${VERIF_TIER:-quick}}"
export VERIF_DIR="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never VERIF_SEED="${VERIF_SEED:-1}"
export CARGO_TARGET_DIR="$VERIF_DIR/target"
unset RUSTFLAGS RUSTC_WRAPPER CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
mkdir -p "$VERIF_DIR/target" "$VERIF_DIR/evidence" "$VERIF_DIR/replays"
exec 9>"$VERIF_DIR/target/.verif-lock"
flock 9
LOG="$VERIF_DIR/target/build-$ID.log"
BIN="$VERIF_DIR/target/release"
rm -f "$VERIF_DIR/replays/$ID.json"

harness() { cargo build --release --offline --manifest-path "$VERIF_DIR/harness/Cargo.toml" --bin mc "$@" >"$LOG" 2>&1; }
FEAT=()
if ! harness; then
  # without the exploration of the tokenizer's tables, in case their representation changed
  FEAT=(--no-default-features)
  if ! harness "${FEAT[@]}"; then
    echo "the harness does not build against /repo:"; grep -E '^error' -A6 "$LOG" | head -40
    exit 2
  fi
fi

# builds a crate of macro invocations; if the macro crate itself compiles, a failure is the macro's
generated() { # which, macro crate
  "$BIN/mc" emit "$1" "$TIER" || exit 3
  local dir="$VERIF_DIR/gen/$1"
  [ -f "$dir/Cargo.lock" ] || cp "$VERIF_DIR/tools/gen-$1.lock" "$dir/Cargo.lock" 2>/dev/null
  if ! cargo build --release --offline --manifest-path "$dir/Cargo.toml" >"$LOG" 2>&1; then
    if cargo build --release --offline --manifest-path "$dir/Cargo.toml" -p "$2" -p mc >"$LOG.2" 2>&1; then
      exec "$BIN/mc" macro-failure "$ID" "$TIER" "$LOG"
    fi
    echo "the macro crate does not build:"; grep -E '^error' -A6 "$LOG.2" | head -40
    exit 2
  fi
}

# runs a checker; if the code under test brings the whole process down, that is a violation as well
run() {
  flock -u 9
  "$@"
  local rc=$?
  case $rc in
    132 | 134 | 135 | 136 | 139) exec "$BIN/mc" crash "$ID" "$TIER" "$rc" ;;
    *) exit $rc ;;
  esac
}

# the same cases once more with every memory access watched (address sanitizer)
sanitized() {
  export ASAN_OPTIONS="exitcode=77:halt_on_error=1:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0"
  local T=x86_64-unknown-linux-gnu OUT="$VERIF_DIR/target/asan.txt"
  rm -f "$OUT" "$VERIF_DIR/target/asan.json"
  if ! CARGO_TARGET_DIR="$VERIF_DIR/target/asan" RUSTFLAGS="-Zsanitizer=address" cargo +nightly build --release --offline --target $T --manifest-path "$VERIF_DIR/harness/Cargo.toml" --bin mc "${FEAT[@]}" >"$LOG" 2>&1; then
    # the plain run still decides leaks and drops; the evidence then lists no sanitized run
    echo "no sanitized build:"; grep -E '^error' -A6 "$LOG" | head -20
    return
  fi
  "$VERIF_DIR/target/asan/$T/release/mc" sanitized "$ID" "$TIER" >"$OUT" 2>&1
  local rc=$?
  [ $rc = 0 ] && return
  cat "$OUT" | head -60
  [ $rc = 1 ] && exit 1
  case $rc in
    77 | 132 | 134 | 135 | 136 | 139) exec "$BIN/mc" crash "$ID" "$TIER" "$rc" "$OUT" ;;
    *) exit $rc ;;
  esac
}

case "$ID" in
  C08) generated tok tokenizer_generator; run "$BIN/gen_tok" "$TIER" ;;
  C19) generated par parser_generator; run "$BIN/gen_par" "$TIER" ;;
  C21)
    if ! cargo build --release --offline --manifest-path /repo/example/Cargo.toml >"$LOG" 2>&1; then
      echo "the example does not build:"; grep -E '^error' -A6 "$LOG" | head -40
      exit 2
    fi
    run "$BIN/mc" C21 "$TIER" "$BIN/example" ;;
  C27)
    "$BIN/mc" emit bad "$TIER" || exit 3
    [ -f "$VERIF_DIR/gen/bad/Cargo.lock" ] || cp "$VERIF_DIR/tools/gen-bad.lock" "$VERIF_DIR/gen/bad/Cargo.lock" 2>/dev/null
    if ! cargo build --release --offline --manifest-path "$VERIF_DIR/gen/bad/Cargo.toml" --message-format=json >"$LOG.json" 2>"$LOG"; then
      echo "the macro crates do not build:"; grep -E '^error' -A6 "$LOG" | head -40
      exit 2
    fi
    EXT=(-L "dependency=$BIN/deps")
    for c in tokenizer parser tokenizer_generator parser_generator; do
      # the libraries of the crates in /repo: an rlib, or the macros' shared object
      f=$(grep '"reason":"compiler-artifact"' "$LOG.json" | grep "\"manifest_path\":\"/repo/$c/Cargo.toml\"" | grep -oE '"[^"]*/lib'$c'-[0-9a-f]*\.(rlib|so)"' | head -1 | tr -d '"')
      [ -n "$f" ] || { echo "no library of $c"; exit 2; }
      EXT+=(--extern "$c=$f")
    done
    run "$BIN/mc" C27 "$TIER" "${EXT[@]}" ;;
  C25) sanitized; run "$BIN/mc" C25 "$TIER" ;;
  *) run "$BIN/mc" "$ID" "$TIER" ;;
esac
