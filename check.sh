#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]   (tier defaults to $VERIF_TIER, then quick)
# Builds the harness against /repo's current working tree and runs one property's exploration.
# Without a property it only builds. Exit: 0 held, 1 violation, anything else is an error of the check.
cd "$(dirname "$0")/harness" || exit 3
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
unset RUSTFLAGS
export CARGO_TARGET_DIR="$PWD/target"
mkdir -p target
log=$(mktemp)
(
  flock 9
  # cargo decides by modification times; judge by content as well
  sum=$( (cd /repo && find src Cargo.toml -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum) | sha256sum | cut -d' ' -f1)
  if [ "$sum" != "$(cat target/.repo-sum 2>/dev/null)" ]; then cargo clean --release --offline -q -p little_exif >/dev/null 2>&1; rm -f target/.repo-sum; fi
  cargo build --release --offline -q >"$log" 2>&1 && echo "$sum" >target/.repo-sum
) 9>target/.lock || { cat "$log" >&2; rm -f "$log"; echo "engine error: the harness does not build against /repo" >&2; exit 3; }
rm -f "$log"
[ -n "$1" ] || exit 0
exec ./target/release/lemc "$1" "${2:-${VERIF_TIER:-quick}}"
