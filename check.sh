#!/bin/bash
# bash check.sh <ID> [quick|thorough]: rebuilds http-types from /repo's working tree together with
# the model checker, then explores property <ID>.
export HOME=/root PATH=/root/.cargo/bin:/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUST_BACKTRACE RUST_LIB_BACKTRACE RUSTFLAGS RUSTDOCFLAGS CARGO_TARGET_DIR
V="$(cd "$(dirname "$0")" && pwd)"
export MC_VERIF="$V"
[ -n "$2" ] && export VERIF_TIER="$2"
cd "$V" || exit 2
bash "$V/build.sh" || { echo "check error: the harness does not build" >&2; exit 2; }
[ -n "$1" ] || exit 0
ulimit -v 24000000
exec "$V/target/release/mc" "$1"
