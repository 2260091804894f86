#!/bin/bash
# usage: seedtest.sh ID  : verify the seeded bug
id=$1; d=/verif/seeded/$id
. /opt/vp/env.sh
wt=/tmp/wt-$id; rm -rf /tmp/wt-$id; cp -a /repo $wt; cd $wt
base(){ timeout 300 bash $d/demo.sh >/tmp/seed-$id.log 2>&1; echo $?; }
a=$(base)
git apply --check $d/patch.diff || { echo "$id: does not apply"; rm -rf /tmp/wt-$id; exit 1; }
git apply $d/patch.diff
go build ./... || echo BUILD FAIL
go vet ./... >/dev/null 2>&1 || echo "vet complains"
b=$(base)
t=$(go test -json ./... 2>/dev/null | python3 -c "
import sys,json
base=json.load(open('/opt/vp/BASELINE.json'))
f=[]
for l in sys.stdin:
    try: e=json.loads(l)
    except: continue
    if e.get('Action')=='fail' and e.get('Test'): f.append(e['Package']+'/'+e['Test'])
print(len(f),f[:3])")
# original lines?
echo "$id demo clean=$a patched=$b failing tests=$t"
if [ "${2:-}" != nocheck ]; then
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
VERIF_REPO=$wt /verif/check.sh ${2:-$p} quick > /tmp/seedcheck-$id.log 2>&1; echo "$id check rc=$? $(tail -1 /tmp/seedcheck-$id.log)"
fi
rm -rf /tmp/wt-$id
