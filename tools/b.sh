#!/bin/bash
# build helper for development
export CARGO_TARGET_DIR=/verif/target CARGO_NET_OFFLINE=true
cd /verif/harness && cargo build --offline --locked 2>&1 | grep -E -A14 "^error|^warning: unused|locked" | head -${1:-80}
