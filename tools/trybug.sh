#!/bin/bash
# trybug.sh ID [CHECK...]: applies a planted change to /repo, runs checks, undoes it (development tool)
ID=$1; shift; S=/verif/seeded/$ID
CH="$@"; [ -n "$CH" ] || CH=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
git -C /repo apply "$S/patch.diff" || exit 1
for c in $CH; do
  bash /verif/check.sh $c >/tmp/trybug.out 2>&1; rc=$?
  echo "$ID $c rc=$rc"; grep -m3 VIOLATION /tmp/trybug.out; tail -1 /tmp/trybug.out
done
git -C /repo checkout -q -- .
