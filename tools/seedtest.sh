#!/bin/bash
# usage: seedtest.sh ID [notests]: confirms a planted bug in a scratch copy (applies, builds, stable tests, demo both ways)
set -u
ID=$1; D=/verif/seeded/$ID; W=/tmp/seedwork.$ID
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
GO=/usr/local/bin/go1.23
rm -rf "/tmp/seedwork.$ID"; mkdir -p $W; cp -a /repo $W/repo; mkdir $W/demo; cp -a $D/. $W/demo/; rm -f $W/demo/*.diff $W/demo/meta.json
cd $W/repo || exit 9
timeout 300 bash $W/demo/demo.sh > $W/clean.log 2>&1; c=$?
git apply $D/patch.diff || { echo "$ID: does not apply"; rm -rf "/tmp/seedwork.$ID"; exit 9; }
$GO build ./... || { echo "$ID: does not build"; exit 9; }
timeout 300 bash $W/demo/demo.sh > $W/bug.log 2>&1; b=$?
t=skipped
if [ $# -lt 2 ]; then
  { $GO test -json -vet=off -count=1 -timeout 6m ./... ; } > $W/a.jsonl 2>/dev/null
  USE_BIT_DECOMPOSITION_RANGE_CHECK=true $GO test -json -vet=off -count=1 -timeout 6m ./... 2>/dev/null | sed 's/^\({.*"Action":"[a-z-]*","Package":"\)/\1bitdecomp:/' > $W/b.jsonl
  python3 /opt/vp/results.py $W/out.json gojson:$W/a.jsonl gojson:$W/b.jsonl >/dev/null 2>&1
  t=$(python3 - $W/out.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
st=b.get('stable') or b.get('passed') or b
st=st if isinstance(st,list) else st.get('passed',[])
p=set(o.get('passed',[]))
m=[x for x in st if x not in p]
print('tests-ok' if not m else 'TESTS-FAIL %s'%m[:3])
P
)
fi
echo "$ID: clean=$c bug=$b $t"
[ $c = 0 ] || tail -20 $W/clean.log
[ $b != 0 ] || tail -5 $W/bug.log
rm -rf "/tmp/seedwork.$ID"
