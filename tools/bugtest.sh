#!/bin/bash
# bugtest.sh ID [notest]: confirms a planted bug in a scratch copy of /repo:
# builds, passes the stable tests, demo passes without and fails with it.
# Then runs the check of its property on it (in the scratch copy's place).
set -u
ID=$1
D=/verif/seeded/$ID
S=/tmp/bt-$ID
[ -d "$D" ] || exit 2
rm -rf "/tmp/bt-$ID"
git clone -q /repo "$S"
cd "$S" || exit 2
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOCACHE=/root/.cache/go-build GOMODCACHE=/root/go/pkg/mod PATH=/opt/veriftools/go1.27.3/bin:$PATH
DD=/tmp/bt-demo-$ID
rm -rf "/tmp/bt-demo-$ID"; mkdir "$DD"; cp "$D"/* "$DD"/; rm -f "$DD"/*.diff "$DD"/*.patch "$DD"/meta.json
sed -i "s#/repo#$S#g" "$DD"/*
bash "$DD/demo.sh" > /tmp/bt-$ID.demo0 2>&1; echo "$ID demo unchanged: $?"
git status --short | head -3
git apply "$D/patch.diff" || { echo "$ID does not apply"; exit 1; }
go build ./... || { echo "$ID does not build"; exit 1; }
bash "$DD/demo.sh" > /tmp/bt-$ID.demo1 2>&1; echo "$ID demo patched: $?"
if [ "${2:-}" != notest ]; then
  sed "s#/repo#$S#g; s#/opt/vp/logs#/tmp/bt-logs-$ID#g; s/-timeout 14m/-timeout 60m/" /opt/vp/test.sh > /tmp/bt-$ID.test.sh
  bash /tmp/bt-$ID.test.sh /tmp/bt-$ID.json > /tmp/bt-$ID.log 2>&1
  python3 - $ID <<'PY'
import json,sys
i=sys.argv[1]
o=json.load(open(f'/tmp/bt-{i}.json')); b=json.load(open('/opt/vp/BASELINE.json'))
m=set(b['stable'])-set(o['passed'])
print(i,'stable tests missing:',len(m), sorted(m)[:5])
PY
fi
rm -rf "/tmp/bt-$ID" "/tmp/bt-demo-$ID" "/tmp/bt-logs-$ID"
