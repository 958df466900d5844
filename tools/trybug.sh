#!/bin/bash
# trybug.sh ID [nocheck]: validates a planted bug in a scratch copy and runs its property's check on it
ID=$1; D=/verif/seeded/$ID; W=/tmp/plant.$ID.$$
P=$(python3 -c "import json; print(json.load(open('$D/meta.json'))['property'])")
mkdir -p $W; cp -a /repo $W/repo; mkdir -p $W/x; cp -r $D $W/x/d
rm -f $W/x/d/patch.diff $W/x/d/meta.json
export PYTHONDONTWRITEBYTECODE=1
( cd $W/repo && bash $W/x/d/demo.sh > $W/clean.log 2>&1 ); A=$?
( cd $W/repo && git apply $D/patch.diff ) || { echo "$ID PATCH FAILS"; exit 2; }
( cd $W/repo && /opt/venv/bin/python -m pytest tests/unittests -q -p no:cacheprovider --timeout=300 > $W/test.log 2>&1 ); T=$?
( cd $W/repo && bash $W/x/d/demo.sh > $W/bug.log 2>&1 ); B=$?
echo "$ID [$P] demo clean=$A bug=$B tests=$T $(tail -1 $W/test.log) | $(tail -1 $W/clean.log) | $(tail -1 $W/bug.log)"
if [ "$2" != nocheck ]; then
  S=$(date +%s)
  mkdir -p $W/v; cp -a /verif/check.py /verif/pydv /verif/properties.jsonl /verif/KNOWN_FINDINGS.txt $W/v/
  ( cd $W/v && MIMOSA_REPO=$W/repo VERIF_SEED=1 VERIF_TIER=quick python3-vt check.py $P > $W/check.log 2>&1 ); C=$?
  echo "   check exit=$C $(( $(date +%s) - S )) s: $(grep -E 'VIOLATION|finding:|obligation ' $W/check.log | head -${LINES_:-3} | cut -c1-300 | tr '\n' '#')"
  cp $W/check.log /tmp/last_$ID.log
fi
rm -rf "$W"
