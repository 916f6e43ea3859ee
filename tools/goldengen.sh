#!/bin/bash
# Records golden/ anew; only for the version it is to stand for (needs a build with the private items used here).
cd "$(dirname "$0")/.." || exit 3
. /opt/vp/env.sh
RUSTFLAGS="--cfg souris_sim -C relocation-model=static -C link-args=-rdynamic -C force-frame-pointers=no" CARGO_TARGET_DIR=$PWD/build/tgold cargo +stable build --release --offline --features goldengen --target x86_64-unknown-linux-gnu --manifest-path sim/Cargo.toml 2>&1 | grep -A8 "^error"
mkdir -p golden
build/tgold/x86_64-unknown-linux-gnu/release/simrun golden "$PWD/golden"
ls golden | wc -l; du -sh golden
