#!/bin/bash
# Builds, from /repo's current working tree, the bulloak CLI and the checker
# (which links the library crates) into /verif/build. Offline.
set -e
here="$(cd "$(dirname "$0")/.." && pwd)"
export MC_BUILD="${MC_BUILD:-$here/build}"
export HOME="${HOME:-/root}" LANG="${LANG:-C.UTF-8}"
export PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
export RUSTC_WRAPPER="$here/tools/rustc-wrapper.sh"
# /repo's own profiles are left alone: the settings come from here, so that
# the CLI and the checker share their dependencies and both have the overflow
# checks and debug assertions that turn silent arithmetic slips into panics.
export CARGO_PROFILE_RELEASE_OPT_LEVEL=1 CARGO_PROFILE_RELEASE_DEBUG=false
export CARGO_PROFILE_RELEASE_CODEGEN_UNITS=16 CARGO_PROFILE_RELEASE_LTO=false
export CARGO_PROFILE_RELEASE_PANIC=unwind CARGO_PROFILE_RELEASE_STRIP=none
export CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=true
export CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS=true
export CARGO_TARGET_DIR="$MC_BUILD/target"
mkdir -p "$MC_BUILD"
log="$MC_BUILD/build.log"
: > "$log"
run() { "$@" >>"$log" 2>&1 || { grep -A12 "^error" "$log" | tail -80 >&2; echo "build failed: $*" >&2; exit 3; }; }
run cargo build --release --offline --manifest-path /repo/Cargo.toml -p bulloak
case "$1" in
  C30) run cargo build --release --offline --manifest-path "$here/harness/Cargo.toml" --features fixes --bin mcfix ;;
  *) run cargo build --release --offline --manifest-path "$here/harness/Cargo.toml" --bin mc ;;
esac
if [ -z "$1" ]; then # setup
  cargo build --release --offline --manifest-path "$here/harness/Cargo.toml" --features fixes --bin mcfix >>"$log" 2>&1 || echo "mcfix isn't built" >&2
fi
if ! cmp -s "$here/harness/shim.c" "$MC_BUILD/shim.c"; then
  run gcc -shared -fPIC -O1 -Wall -o "$MC_BUILD/faultshim.so" "$here/harness/shim.c" -ldl
  cp "$here/harness/shim.c" "$MC_BUILD/shim.c"
fi
