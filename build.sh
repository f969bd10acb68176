#!/bin/bash
# Build what the check of a property (or of all, without argument) needs from /repo's working tree.
cd "$(dirname "$0")" || exit 3
. ./env.sh
mkdir -p "$CARGO_TARGET_DIR"
(
  flock 9
  # Times of files say nothing about their content in a copied tree: compare contents
  now=$( (cd /repo && find src data Cargo.toml -type f ! -name all.toml -print0 | sort -z | xargs -0 sha256sum; rustc --version) | sha256sum)
  if [ "$now" != "$(cat "$CARGO_TARGET_DIR/content" 2>/dev/null)" ]; then
    rm -f "$CARGO_TARGET_DIR/content"
    (cd harness && cargo clean --offline -q -p rawloader && cargo clean --offline -q --release -p rawloader) 2>/dev/null
    rm -rf "$CARGO_TARGET_DIR/cli" "$CARGO_TARGET_DIR/asan"
  fi
  quiet() { out=$("$@" 2>&1) || { echo "$out"; return 1; }; }
  cd harness || exit 1
  quiet cargo build --offline || exit 1
  case "$1" in ""|C01|C02) quiet cargo build --offline --release || exit 1;; esac
  case "$1" in ""|C01) RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu RUSTFLAGS="$RUSTFLAGS -Zsanitizer=address" CARGO_TARGET_DIR=$CARGO_TARGET_DIR/asan quiet cargo build --offline --release --target x86_64-unknown-linux-gnu || exit 1;; esac
  case "$1" in ""|C21) CARGO_TARGET_DIR=$CARGO_TARGET_DIR/cli quiet cargo build --offline --manifest-path /repo/Cargo.toml --bin rawloader || exit 1;; esac
  echo "$now" > "$CARGO_TARGET_DIR/content"
) 9> "$CARGO_TARGET_DIR/lock"
