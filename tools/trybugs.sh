#!/bin/bash
# usage: trybugs.sh [pattern] — runs the check of each planted bug on a scratch copy of /repo with the bug applied
for d in /verif/seeded/${1:-*}/; do
  id=$(basename $d); p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  w=$(mktemp -d /tmp/tb.XXXX); git clone -q /repo $w/repo; (cd $w/repo && git apply $d/patch.diff) || echo "$id does not apply"
  cp -r /verif/contracts /verif/replay /verif/bin /verif/run.sh /verif/env.sh /verif/setup.sh /verif/known-findings.txt $w/ 2>/dev/null; mkdir -p $w/evidence $w/gvc
  (cd $w; GVC_REPO=$w/repo ./run.sh $p > out.txt 2>&1; rc=$?; echo "$id $p rc=$rc $(grep VIOLATION out.txt | sed 's/replay=[^ ]*//') $(tail -n 1 out.txt) | $(grep -h 'REPLAY-FAIL' -A3 evidence/replay/*.txt 2>/dev/null | head -c 250 | tr '\n' ' ')")
  rm -rf "$w"
done
