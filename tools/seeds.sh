#!/bin/bash
# seeds.sh "<seeds>" "<props>": the checks with several seeds; nothing but rc=0 and no unjudged traces is expected
cd /verif; for s in $1; do for c in $2; do VERIF_SEED=$s bin/check $c > /tmp/o.$c.$s 2>&1; echo "$s $c rc=$? $(tail -1 /tmp/o.$c.$s)"; grep -E "some property|CHECK-ERROR" /tmp/o.$c.$s; done; done
