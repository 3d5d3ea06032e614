#!/bin/bash
# builds the simulator and the instrumented library from /repo's working tree
SIMDIR=$(dirname "$(readlink -f "$0")")
. /opt/vp/env.sh
cd "$SIMDIR"
export RUSTC_WRAPPER=$PWD/rustc-wrap.sh
export CARGO_TARGET_DIR=$PWD/target
exec cargo build --release --offline --target x86_64-unknown-linux-gnu "$@"
