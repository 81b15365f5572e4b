#!/bin/bash
# rev.sh commit props... : reverse-apply a fix commit, run checks
c=$1; shift
cd /repo || exit 1
git show $c > /tmp/rev.patch
if ! git apply -R --check /tmp/rev.patch 2>/dev/null; then echo "$c: does not revert cleanly"; exit; fi
git apply -R /tmp/rev.patch
for p in "$@"; do out=$(cd /verif && timeout 900 bin/check $p 2>&1); rc=$?; echo "$c $p rc=$rc $(echo "$out"|grep -c ^VIOLATION) $(echo "$out" | tail -1)"; [ $rc = 2 ] && echo "$out" | tail -5; echo "$out" | grep "rejected:" | cut -c1-300 | head -2; done
git checkout -- .
