#!/bin/bash
# Prebuilds the harnesses (the checks rebuild them anyway).
cd "$(dirname "$0")/../harness" || exit 1
. /opt/vp/env.sh
export CARGO_INCREMENTAL=0
for h in evmx rtx; do
    (cd $h && cargo build --release --offline --locked) || exit 1
done
