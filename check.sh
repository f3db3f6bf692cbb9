#!/bin/bash
# Usage: check.sh <property>|build     (VERIF_TIER=quick|thorough)
# Builds the explorer against /repo's current working tree, then decides one property.
# exit 0 held, 1 violated (with a VIOLATION line), 2 no answer.
set -u
V=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR="$V" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
REPO=/repo
P=${1:?property}
if [ "$P" = C23 ]; then exec bash "$V/regen/regen.sh"; fi
[ "$P" = build ] || rm -f -- "$V/evidence/$P.json"
export CARGO_TARGET_DIR="$V/target"
mkdir -p "$V/target" "$V/evidence" "$V/replays"
build() {
  # content hash, not file times: what counts is the text of the tree
  local h
  h=$(cd "$REPO" && { find src -type f -print0 | LC_ALL=C sort -z | xargs -0 md5sum; md5sum Cargo.toml; ls build.rs 2>/dev/null; cd "$V/mc" && md5sum src/*.rs Cargo.toml */Cargo.toml; rustc -V; } | md5sum | cut -c1-32)
  if [ ! -x "$V/target/release/mc" ] || [ "$(cat "$V/target/.stamp" 2>/dev/null)" != "$h" ]; then
    rm -f -- "$V/target/.stamp"
    ( cd "$V/mc" && cargo clean --offline --release -q -p text_encoding -p text_encoding_rel -p text_encoding_dev -p mc 2>/dev/null
      cargo build --offline --release -q ) > "$V/target/build.log" 2>&1
    if [ $? -ne 0 ]; then
      echo "the explorer does not build against $REPO:" >&2
      grep -m5 -A6 '^error' "$V/target/build.log" >&2
      return 2
    fi
    echo "$h" > "$V/target/.stamp"
  fi
}
exec 9> "$V/target/.lock"
flock 9
build || exit 2
[ "$P" = build ] && exit 0
cp -f "$V/target/release/mc" "$V/target/mc.$$" || exit 2
exec 9>&-
trap 'rm -f -- "$V/target/mc.$$"' EXIT
"$V/target/mc.$$" check "$P"
rc=$?
case $rc in 0|1) exit $rc;; *) exit 2;; esac
