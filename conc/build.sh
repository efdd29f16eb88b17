#!/bin/bash
# Builds the schedule explorer of C25: the code under test and the standard library with the instrumentation of
# ThreadSanitizer, linked with rt.c in place of its runtime.
cd "$(dirname "$0")" || exit 2
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true
out=$(cd .. && pwd)/target-conc
mkdir -p "$out"
# another file name for another content: cargo must link again
obj=$out/rt-$(md5sum <rt.c | cut -c1-16).o
if [ ! -f "$obj" ]; then
  gcc -O2 -Wall -Wextra -c rt.c -o "$obj.tmp" && mv "$obj.tmp" "$obj" || exit 1
fi
export CARGO_TARGET_DIR="$out"
export RUSTFLAGS="-Zsanitizer=thread -Zexternal-clangrt -Clink-arg=$obj"
cargo +nightly build -Zbuild-std --target x86_64-unknown-linux-gnu --release --offline || exit 1
cp "$out/x86_64-unknown-linux-gnu/release/conc" "$out/conc"
