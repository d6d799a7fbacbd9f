#!/bin/bash
# check.sh ID quick|thorough   run one check against /repo's current working tree
# check.sh setup               build only
# check.sh replay FILE         re-execute one recorded execution
set -u
V=$(cd "$(dirname "$0")" && pwd)
REPO=${MC_REPO:-/repo}
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= TZ="<+0545>-5:45" MC_VERIF=$V
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_TARGET_DIR=${MC_TARGET:-$V/target}
unset RUSTFLAGS RUSTDOCFLAGS CARGO_BUILD_TARGET CARGO_INCREMENTAL
mkdir -p "$CARGO_TARGET_DIR" "$V/evidence"
build() {
  exec 9>"$CARGO_TARGET_DIR/.mc.lock"; flock 9
  # decide by content, not by modification times, whether the library has to be recompiled
  local new old
  new=$(cd "$REPO" && { find src -type f -print0 | sort -z | xargs -0 sha256sum; sha256sum Cargo.toml README.md; } 2>/dev/null | sha256sum)
  old=$(cat "$CARGO_TARGET_DIR/.mc.stamp" 2>/dev/null)
  if [ "$new" != "$old" ]; then
    rm -f "$CARGO_TARGET_DIR/.mc.stamp"
    (cd "$V/harness" && cargo clean --release -p icalendar --offline >/dev/null 2>&1)
  fi
  local log=$CARGO_TARGET_DIR/.mc.build.log
  if ! (cd "$V/harness" && cargo build --release --offline --locked >"$log" 2>&1); then
    echo "build failed:" >&2; tail -60 "$log" >&2; exit 2
  fi
  echo "$new" >"$CARGO_TARGET_DIR/.mc.stamp"
  exec 9>&-
}
build
MC=$CARGO_TARGET_DIR/release/mc
case "${1:-}" in
  setup) "$MC" list >/dev/null ;;
  replay) exec "$MC" replay "$2" ;;
  *) exec "$MC" run "$1" "${2:-${VERIF_TIER:-quick}}" ${3:+"$3"} ;;
esac
