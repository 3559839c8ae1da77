#!/bin/bash
# Builds everything once, so that the checks start warm. Nothing here is needed by a check.
set -u
export VERIF_DIR="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export CARGO_TARGET_DIR="$VERIF_DIR/target" CARGO_NET_OFFLINE=true
mkdir -p "$VERIF_DIR/evidence" "$VERIF_DIR/replays"
cargo build --release --offline --manifest-path "$VERIF_DIR/harness/Cargo.toml" 2>&1 | tail -3
cargo build --release --offline --manifest-path /repo/example/Cargo.toml 2>&1 | tail -1
for w in tok par bad; do
  "$VERIF_DIR/target/release/mc" emit $w quick
  [ -f "$VERIF_DIR/gen/$w/Cargo.lock" ] || cp "$VERIF_DIR/tools/gen-$w.lock" "$VERIF_DIR/gen/$w/Cargo.lock" 2>/dev/null
  cargo build --release --offline --manifest-path "$VERIF_DIR/gen/$w/Cargo.toml" 2>&1 | tail -1
done
CARGO_TARGET_DIR="$VERIF_DIR/target/asan" RUSTFLAGS="-Zsanitizer=address" cargo +nightly build --release --offline --target x86_64-unknown-linux-gnu --manifest-path "$VERIF_DIR/harness/Cargo.toml" --bin mc 2>&1 | tail -1
exit 0
