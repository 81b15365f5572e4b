# usage: t.sh pkg  -> /tmp/hb/<pkg>.test or bin
rm -rf /tmp/hh && cp -r /verif/harness /tmp/hh && cd /tmp/hh && cat > go.mod <<X
module verif
go 1.26
require github.com/milosgajdos/netscrape v0.0.0
replace github.com/milosgajdos/netscrape => /repo
$(grep -v '^module\|^go ' /repo/go.mod)
X
cp /repo/go.sum . ; . /opt/vp/env.sh; mkdir -p /tmp/hb
if ls $1/*_test.go >/dev/null 2>&1; then go vet ./$1; go test -c $2 -o /tmp/hb/$1.test ./$1; else go build $2 -o /tmp/hb/$1 ./$1; fi
rm -rf /tmp/hh
