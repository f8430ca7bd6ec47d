#!/bin/bash
# tryseed.sh id [tier] : in copies under /tmp/sr, so that /repo stays as it is:
# demo on clean, demo on patched, tests on patched, check on patched
id=$1; d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
w=/tmp/sr; mkdir -p $w/verif $w/demo
[ -d $w/repo ] || git clone -q /repo $w/repo
(cd $w/repo && git checkout -q -- . && git pull -q) || exit 1
cp -r /verif/bin /verif/lib /verif/harness /verif/spec /verif/known_findings.jsonl /verif/properties.jsonl /verif/MANIFEST.json $w/verif/
sed -i "s#path = \"/repo\"#path = \"$w/repo\"#" $w/verif/harness/Cargo.toml
rm -rf /tmp/sr/demo; cp -r $d $w/demo; rm -f $w/demo/patch.diff $w/demo/meta.json
cd $w/repo || exit 1
$w/demo/demo.sh >/tmp/demo_clean.txt 2>&1; c=$?
git apply $d/patch.diff || { echo "no apply"; exit 1; }
$w/demo/demo.sh >/tmp/demo_bad.txt 2>&1; b=$?
t=$(cargo test --offline 2>&1 | grep -o "[0-9]* passed; [0-9]* failed" | head -1)
PT_REPO=$w/repo VERIF_SEED=1 VERIF_TIER=${2:-quick} $w/verif/bin/check $prop > /tmp/check_$id.txt 2>&1; k=$?
git checkout -q -- .
echo "$id $prop demo clean=$c bad=$b $t check=$k $(grep -c VIOLATION /tmp/check_$id.txt) :: $(grep -A1 'violation(s)' /tmp/check_$id.txt | tail -1 | cut -c1-160)"
