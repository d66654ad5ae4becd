#!/bin/bash
# check.sh <property> <quick|thorough>   |   check.sh --build
# Builds the harness against /repo's current working tree and runs one check.
# Exit 0: held on everything explored; 1: VIOLATION line printed; anything else: no verdict.
set -u
cd /verif/mc || exit 2
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/mc/target NO_COLOR=1
unset RUSTFLAGS CARGO_BUILD_RUSTFLAGS CLICOLOR_FORCE RUST_BACKTRACE
mkdir -p /verif/evidence "$CARGO_TARGET_DIR"
# The message catalogues are embedded at build time; a change of theirs must rebuild the crate that embeds them.
sum=$(cat /repo/data/locales/*/* 2>/dev/null | sha256sum)
if [ "$(cat "$CARGO_TARGET_DIR/locales.sum" 2>/dev/null)" != "$sum" ]; then
  cargo clean --release -p dice-core >/dev/null 2>&1
  printf '%s' "$sum" > "$CARGO_TARGET_DIR/locales.sum"
fi
build() {
  if [ "$1" = rt ]; then cd /verif/rt || exit 2; fi
  cargo build --release --offline --bin "$1" >"$CARGO_TARGET_DIR/build.$1.log" 2>&1 || { cat "$CARGO_TARGET_DIR/build.$1.log"; echo "the harness does not build against /repo"; exit 2; }
}
if [ "${1:-}" = --build ]; then build syn; build sem; build rt; exit 0; fi
case "$1" in
  C03|C04|C21) bin=syn ;;
  C31|C32) bin=rt ;;
  *) bin=sem ;;
esac
build $bin
ulimit -v $((24 * 1024 * 1024))
exec "$CARGO_TARGET_DIR/release/$bin" "$1" "${2:-quick}"
