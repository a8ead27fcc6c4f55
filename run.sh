#!/bin/bash
# run.sh ID [tier]      build the harness against /repo's current tree and run one check
# run.sh --replay FILE  re-execute a replay file
# run.sh --build        build only
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUST_BACKTRACE RUST_LIB_BACKTRACE RUSTFLAGS RUSTC_WRAPPER
V="$(cd "$(dirname "$0")" && pwd)"
export KV_VERIF="$V" CARGO_TARGET_DIR="$V/target"
LOG="$V/target/build.$$.log"; mkdir -p "$V/target"
if ! (cd "$V/harness" && cargo build --offline --locked >"$LOG" 2>&1); then
    tail -60 "$LOG"; rm -f "$LOG"; echo "ERROR: harness build failed"; exit 2
fi
rm -f "$LOG"
case "$1" in
--build) exit 0 ;;
--replay) exec "$V/target/debug/kv" replay "$2" ;;
*) exec "$V/target/debug/kv" check "$1" ${2:+"$2"} ;;
esac
