#!/bin/sh
# replay.sh '<id>': makes one recorded call again (the id of an event in a
# trace: operation number and arguments) and prints the event it gives now.
cd "$(dirname "$0")/.." || exit 2
mkdir -p out/replay
(cd spec && H3_TABLES="$PWD/../out/replay/tables.json" tlc -metadir ../out/replay/md -config H3Export.cfg H3Export.tla >/dev/null 2>&1)
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
(cd harness && cargo build --release --offline --features inner --target-dir target-inner >/dev/null 2>&1) || exit 2
# shellcheck disable=SC2086
timeout 60 harness/target-inner/release/h3conf one out/replay/tables.json $1
