#!/bin/bash
# mk.sh ID : takes the diff of /tmp/sw, tests it, runs the demo on both trees, stores /verif/seeded/ID (spec.pspec, main.rs, meta.json already there)
id=$1; d=/verif/seeded/$id; . /opt/vp/env.sh
[ -f $d/demo.sh ] || cp /verif/tools/seedkit/demo.sh $d/demo.sh
chmod +x $d/demo.sh
git -C /tmp/sw diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "no diff"; exit 1; }
cd /tmp/sw && cargo test --workspace --offline --locked 2>&1 | grep -E "^test result|FAILED|^error" | grep -E "FAILED|error|[1-9][0-9]* failed" | head
bash $d/demo.sh > /tmp/demo.out 2>&1; a=$?; tail -5 /tmp/demo.out | cut -c1-300
git checkout -q -- . ; bash $d/demo.sh >/tmp/demo.out 2>&1; b=$?
[ $b != 0 ] && tail -5 /tmp/demo.out
echo "$id patched=$a clean=$b"
