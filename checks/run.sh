#!/bin/bash
# run.sh PROPERTY quick|thorough: rebuild the harness from /repo's working tree and decide PROPERTY.
# Exit 0: held on everything explored; 1: VIOLATION line printed; 2: no verdict (build or machinery failure).
set -u
cd "$(dirname "$0")/.." || exit 2
export VERIF_ROOT="$PWD"
. /opt/vp/env.sh
export CARGO_INCREMENTAL=0
prop=$1 tier=$2
case $prop in
    P11 | P12 | P1[4-9] | P2?) tool=rtx ;;
    *) tool=evmx ;;
esac
mkdir -p out
log="out/build-$$.log"
if ! (cd harness/$tool && cargo build --release --offline --locked) >"$log" 2>&1; then
    tail -40 "$log" >&2
    echo "no verdict: the harness does not build against /repo" >&2
    exit 2
fi
rm -f "$log"
exec ./harness/$tool/target/release/$tool check "$prop" "$tier"
