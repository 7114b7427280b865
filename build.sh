#!/bin/bash
# Builds the checker against /repo's working tree.
export HOME=/root PATH=/root/.cargo/bin:/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUST_BACKTRACE RUST_LIB_BACKTRACE RUSTFLAGS RUSTDOCFLAGS CARGO_TARGET_DIR
V="$(cd "$(dirname "$0")" && pwd)"
cd "$V/harness" || exit 2
LOG=$(mktemp)
cargo build --release --offline --locked --quiet --target-dir "$V/target" >"$LOG" 2>&1
rc=$?
[ $rc -eq 0 ] || tail -n 60 "$LOG" >&2
rm -f "$LOG"
exit $rc
