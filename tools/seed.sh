#!/bin/bash
# seed.sh <id> [nocheck|"props"]: confirm a planted bug in a scratch clone of /repo (builds, passes the tests,
# demo 0 without and nonzero with it), then run its check (or the given ones) against the clone
id=$1; d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
rt=$(mktemp -d /tmp/seed.XXXXXX); trap "rm -rf $rt" EXIT
git clone -q /repo $rt/repo; cd $rt/repo || exit 1
run() { t=$rt/demo; mkdir $t; cp -r $d/* $t/; rm -f $t/*.diff $t/meta.json; timeout 300 bash $t/demo.sh > /tmp/demo.$id.out 2>&1; r=$?; rm -rf $t; return $r; }
run; r0=$?
git apply $d/patch.diff || exit 1
go build ./... || echo "BUILD FAILS"
go test -json -vet=off -count=1 -timeout 5m ./... > $rt/t.json 2>/dev/null
fails=$(python3 - $rt/t.json <<'X'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); ok=set()
for l in open(sys.argv[1]):
    try: e=json.loads(l)
    except ValueError: continue
    if e.get('Action')=='pass' and e.get('Test'): ok.add(e['Package']+'/'+e['Test'])
print(len(b-ok))
X
)
run; r1=$?
props=$p; [ -n "$2" ] && props=$2
if [ "$2" = nocheck ]; then echo "$id $p demo=$r0/$r1 testfails=$fails"; exit; fi
for q in $props; do
  out=$(cd /verif && NETSCRAPE_REPO=$rt/repo timeout 900 bin/check $q 2>&1); c=$?; v=$(echo "$out" | grep -c "^VIOLATION property=$q")
  echo "$id $q demo=$r0/$r1 testfails=$fails check=$c violations=$v $(echo "$out"|tail -1)"
done
