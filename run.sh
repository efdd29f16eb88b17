#!/bin/bash
# run.sh PROPERTY quick|thorough [--only CASE]
# Builds the checker against /repo's current working tree and explores one property.
# exit 0: held on everything explored; 1: VIOLATION; 2: error of the check.
cd "$(dirname "$0")" || exit 2
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true
export MC_VERIF="$PWD"
prop=$1; tier=${2:-quick}; shift 2
mkdir -p evidence replays
rm -f "$PWD/evidence/$prop.json"
log=$(mktemp)
# C25, and the part of C27 that depends on the schedule. A case of the latter has an @.
if [ "$prop" = C25 ] || { [ "$prop" = C27 ] && { [ $# = 0 ] || [[ "$*" == *@* ]]; }; }; then
  bash conc/build.sh >"$log" 2>&1 || { cat "$log"; rm -f "$log"; echo "check error: build failed"; exit 2; }
  if [ "$prop" = C25 ] || [ $# != 0 ]; then
    rm -f "$log"
    exec target-conc/conc "$prop" "$tier" "$@"
  fi
  export MC_PART=$(mktemp)
  trap 'rm -f "$MC_PART"' EXIT
  target-conc/conc "$prop" "$tier"
  rc=$?
  [ $rc = 0 ] || { rm -f "$log"; exit $rc; }
fi
( cd mc && CARGO_TARGET_DIR=../target cargo build --release --offline ) >"$log" 2>&1 || { tail -50 "$log"; rm -f "$log"; echo "check error: build failed"; exit 2; }
rm -f "$log"
target/release/mc "$prop" "$tier" "$@"
rc=$?
# The checker is safe code: when it ends with SIGABRT, SIGSEGV, SIGBUS or SIGILL, the library has exhausted the stack or
# asked for absurd amounts of memory in a call that must return.
case $rc in
  132|134|135|139)
    printf '{"property":"%s","what":"the library ended the process (status %s)","replay":"bash run.sh %s %s %s"}\n' "$prop" "$rc" "$prop" "$tier" "$*" >"replays/$prop-crash.json"
    echo "VIOLATION property=$prop replay=$PWD/replays/$prop-crash.json"
    echo "  what: the process was ended with status $rc by a call into the library"
    exit 1;;
esac
exit $rc
