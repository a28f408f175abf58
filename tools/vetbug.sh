#!/bin/bash
# vetbug.sh ID: checks a planted change in a scratch copy of /repo: applies, builds, stable tests, demo passes/fails
# (development tool; no registered check uses it)
ID=$1; S=/verif/seeded/$ID
[ -f "$S/patch.diff" ] || { echo "no $S"; exit 1; }
[ -f "$S/case.sh" ] || for f in kit.go.txt demo.sh gocfl.mod.txt gocfl.sum.txt; do [ -f "$S/$f" ] || cp -a /verif/tools/demokit/$f "$S/$f"; done
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
# original lines?
git -C /repo apply --check "$S/patch.diff" || exit 1
python3 - "$S/patch.diff" <<'PY' || exit 1
import sys,re,subprocess
p=open(sys.argv[1]).read()
f=None;ok=0;bad=0
for l in p.split('\n'):
    m=re.match(r'--- a/(.*)',l)
    if m:
        f=m.group(1); bl=subprocess.run(['git','-C','/repo','blame','-s',f],capture_output=True,text=True).stdout.split('\n'); continue
    m=re.match(r'@@ -(\d+)',l)
    if m: n=int(m.group(1)); continue
    if f is None: continue
    if l.startswith('-'):
        if bl[n-1].startswith('^adbae43'): ok+=1
        else: bad+=1
        n+=1
    elif l.startswith('+'): pass
    elif l.startswith(' '): n+=1
print('original lines changed:',ok,'own lines changed:',bad)
sys.exit(0 if ok else 1)
PY
cd /repo
D=$(mktemp -d /tmp/vb.XXXXXX); cp -a "$S" "$D/s"; rm -f "$D/s/patch.diff" "$D/s/meta.json"
bash "$D/s/demo.sh" >"$D/o" 2>&1; r0=$?
git apply "$S/patch.diff"
bash /opt/vp/build.sh >"$D/b" 2>&1; rb=$?
bash /opt/vp/test.sh "$D/t.json" >/dev/null 2>&1
bash "$D/s/demo.sh" >"$D/o2" 2>&1; r1=$?
git checkout -q -- .
python3 - "$D/t.json" <<'PY'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; t=json.load(open(sys.argv[1]))
ps=set(t.get('passed',t.get('pass',[])))
print('stable tests:', 'ok' if all(x in ps for x in b) else 'FAIL %s'%t)
PY
echo "build rc=$rb demo unpatched rc=$r0 patched rc=$r1"
[ $r0 = 0 ] || tail -5 "$D/o"
tail -3 "$D/o2"
rm -rf -- "$D"
[ $rb = 0 ] && [ $r0 = 0 ] && [ $r1 != 0 ] && echo "BUG $ID VALID"
