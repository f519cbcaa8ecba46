#!/bin/bash
# run.sh <property> : rebuild from /repo's working tree, then run that property's monitors
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR="$PWD/.build/target"
export VMON_DIR="$PWD" VMON_REPO="${VMON_REPO:-/repo}"
python3 tools/sync.py || exit 2
compile() { ( cd harness && cargo build --offline --locked 2>&1 ) > .build/build.log; }
# once more without what was compiled earlier: an interrupted build may have left it unusable
compile || { rm -rf "$PWD/.build/target/debug/incremental"; compile; } || { tail -40 .build/build.log >&2; exit 2; }
[ "$1" = build ] && exit 0
exec .build/target/debug/vmon check "$1"
