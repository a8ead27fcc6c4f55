#!/bin/bash
# run checks without rebuilding: c.sh ID...
unset RUST_BACKTRACE RUST_LIB_BACKTRACE
for p in "$@"; do KV_VERIF=/verif /verif/target/debug/kv check $p ${TIER:-quick} 2>&1 | tail -${TAIL:-8} | cut -c1-600; done
