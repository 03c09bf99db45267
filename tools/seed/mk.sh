#!/bin/bash
# mk.sh ID: /tmp/seed/ID/{demo_test.go.txt,PKG,meta.json} plus the working-tree change in
# the scratch worktree /tmp/sw become /verif/seeded/ID once confirmed. Restores /tmp/sw.
id=$1; s=/tmp/seed/$id; d=/verif/seeded/$id
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
cd /tmp/sw || exit 1
git diff > /tmp/seed/$id.diff
[ -s /tmp/seed/$id.diff ] || { echo "$id: no change"; exit 1; }
cp /verif/tools/seed/demo.sh $s/demo.sh
fail() { echo "$id: $1"; git checkout -q -- .; exit 1; }
go build ./... || fail "does not build"
bash $s/demo.sh > /tmp/seed/$id.out 2>&1 && fail "demo passes with the change"
grep -q "TestPlantedDemo\|panic\|timed out" /tmp/seed/$id.out || { cat /tmp/seed/$id.out; fail "demo does not run"; }
go test -json -vet=off -count=1 ./... > /tmp/seed/$id.log 2>/dev/null
python3 /opt/vp/results.py /tmp/seed/o.json gojson:/tmp/seed/$id.log
python3 - <<'P' || fail "baseline tests fail"
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/seed/o.json'))
bp=b.get('passed') or b.get('stable') or b
m=sorted(set(bp)-set(o['passed']))
if m: print(m[:10]); sys.exit(1)
P
git checkout -q -- .
bash $s/demo.sh > /tmp/seed/$id.out0 2>&1 || { tail -20 /tmp/seed/$id.out0; fail "demo fails without the change"; }
mkdir -p $d && cp $s/demo.sh $s/demo_test.go.txt $s/PKG $s/meta.json $d/ && cp /tmp/seed/$id.diff $d/patch.diff && echo "$id: kept"
