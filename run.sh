#!/bin/bash
# Builds the simulator against /repo's working tree and passes the arguments on to it.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here" || exit 3
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
export CARGO_NET_OFFLINE=true
mkdir -p build/sourisd build/mouse evidence
# the daemon's own sources as a library: everything but the kind of target is taken from its manifest
python3 tools/wrap.py /repo/crates/sourisd/Cargo.toml build/sourisd/Cargo.toml || exit 3
python3 tools/wrap.py /repo/crates/mouse/Cargo.toml build/mouse/Cargo.toml || exit 3
export RUSTFLAGS="--cfg souris_sim -C relocation-model=static -C link-args=-rdynamic -C force-frame-pointers=no"
export CARGO_TARGET_DIR="$here/build/target"
log="$here/build/build.$$.log"
if ! flock build/lock cargo +stable build --release --offline --target x86_64-unknown-linux-gnu --manifest-path sim/Cargo.toml >"$log" 2>&1; then
    grep -A14 "^error" "$log" >&2
    echo "run.sh: the simulator does not build" >&2
    rm -f "$log"
    exit 3
fi
rm -f "$log"
[ $# -eq 0 ] && exit 0
exec "$here/build/target/x86_64-unknown-linux-gnu/release/simrun" "$@"
