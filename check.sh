#!/bin/bash
# check.sh <id> [quick|thorough]   decide one property against /repo's working tree
# check.sh build                   build only
# check.sh replay <file>           evaluate a recorded case again
set -u
V="$(cd "$(dirname "$0")" && pwd)"
export HOME=${HOME:-/root} RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$V/target/build" CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET RUSTC_WRAPPER
mkdir -p "$V/target"
exec 9>"$V/target/lock"
flock 9
# What is in /repo decides what is rebuilt, not its time stamps.
sum=$(cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
stamp="$V/target/built-from"
if [ "$(cat "$stamp" 2>/dev/null)" != "$sum" ]; then
  rm -f "$stamp"
  (cd "$V/harness" && cargo clean --release -p prosemirror -p pmcheck --offline) >/dev/null 2>&1
fi
if ! (cd "$V/harness" && cargo build --release --offline --locked) >"$V/target/build.log" 2>&1; then
  tail -40 "$V/target/build.log" >&2
  echo "check.sh: the harness does not build against /repo" >&2
  exit 2
fi
echo "$sum" >"$stamp"
bin="$V/target/build/release/pmcheck"
case "${1:-}" in
  build) exit 0 ;;
  replay) flock -u 9; ulimit -v 8000000; exec "$bin" replay "$2" ;;
esac
flock -u 9
ulimit -v 24000000
exec "$bin" run "$1" "${2:-${VERIF_TIER:-quick}}" "$V"
