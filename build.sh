#!/bin/bash
# build.sh OUTDIR [race]: builds the harness against the current /repo tree
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
. "$HERE/env.sh"
OUT=$1; MODE=$2
mkdir -p "$OUT"
python3 - "$HERE" "$OUT/overlay.json" <<'PY'
import sys,os,json
here,out=sys.argv[1:]
h=os.path.join(here,"harness")
rep={"/repo/verifharness/"+f:os.path.join(h,f) for f in sorted(os.listdir(h)) if f.endswith(".go")}
json.dump({"Replace":rep},open(out,"w"))
PY
cp "$HERE/mod/gocfl.mod" "$OUT/gocfl.mod"; cp "$HERE/mod/gocfl.sum" "$OUT/gocfl.sum"
sed -i "s#=> /verif/#=> $HERE/#" "$OUT/gocfl.mod"
cd /repo

if [ "$MODE" = race ]; then
  go build -mod=mod "-modfile=$OUT/gocfl.mod" "-overlay=$OUT/overlay.json" -race -o "$OUT/harness-race" ./verifharness
else
  go build -mod=mod "-modfile=$OUT/gocfl.mod" "-overlay=$OUT/overlay.json" -o "$OUT/harness" ./verifharness
fi
