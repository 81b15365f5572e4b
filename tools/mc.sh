#!/bin/bash
cd /verif/spec; m=$(mktemp -d /tmp/tlcmXXXX); export PROP=ALL
s=$(date +%s); timeout ${3:-300} java -XX:+UseParallelGC -Xss32m -Xmx8g -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -deadlock -noGenerateSpecTE -workers 8 -metadir $m -config $2.cfg $1.tla > /tmp/mc.$2.log 2>&1
echo "$2 rc=$? $(( $(date +%s)-s ))s scripts=$(grep '^"S' /tmp/mc.$2.log|sort -u|wc -l)"; grep -vE '^"S' /tmp/mc.$2.log|grep -E "states generated|Error|rror:|line" | tail -6
rm -rf $m
