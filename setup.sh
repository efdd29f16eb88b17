#!/bin/bash
# Builds the checkers once, offline; every check rebuilds what changed in /repo.
cd "$(dirname "$0")" || exit 2
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true
( cd mc && CARGO_TARGET_DIR=../target cargo build --release --offline ) || exit 1
[ ! -f conc/build.sh ] || bash conc/build.sh || exit 1
mkdir -p evidence replays
