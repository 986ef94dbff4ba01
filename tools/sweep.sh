#!/bin/bash
# search every property on the current tree (development aid): P="08 09" S=seed T=seconds tools/sweep.sh
cd /verif/harness && CARGO_TARGET_DIR=/verif/.build/harness cargo build --offline --release 2>&1 | grep -E "^error" -A9 | head -60
for p in ${P:-$(seq -w 1 26)}; do timeout 100 env /verif/.build/harness/release/obh search C$p ${S:-1} ${T:-4} /tmp/r_C$p.json > /tmp/o_C$p.txt; echo "C$p $? $(grep FOUND /tmp/o_C$p.txt | cut -c1-400) $(grep -o '"evaluations":[0-9]*' /tmp/o_C$p.txt)"; done
