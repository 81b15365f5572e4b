#!/bin/bash
# val.sh module tracefile PROP
cd /verif/spec; m=$(mktemp -d /tmp/tlcmXXXX)
export TRACES=$2 PROP=${3:-ALL}; [ -n "$4" ] && export DEBUG=1
timeout 600 java -XX:+UseParallelGC -Xss32m -Xmx6g -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -deadlock -noGenerateSpecTE -workers 8 -metadir $m -config $1.cfg $1.tla > /tmp/val.log 2>&1
echo "$1 rc=$? lines=$(wc -l <$2) acc=$(grep -o '^"ACC [0-9]*' /tmp/val.log|sort -u|wc -l)"; grep -E "states generated|Error" /tmp/val.log | tail -3
rm -rf $m
