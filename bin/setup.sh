#!/bin/bash
# Warms the build cache for the checks (they build again from /repo's current
# tree themselves) and validates the reference implementation they rely on.
cd "$(dirname "$0")/../harness" || exit 1
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod GOSUMDB=off
export GOMODCACHE=/root/go/pkg/mod
export PATH="$PATH:/usr/local/bin:/usr/bin:/bin:/usr/local/go/bin"
W=$(mktemp -d) || exit 1
trap 'rm -rf "$W"' EXIT
rc=0
cp go.mod "$W/go.mod"; cp go.sum "$W/go.sum"
M="-vet=off -modfile $W/go.mod"
go test $M ./ref || rc=1
go test $M -c -o "$W/plain.test" ./props || rc=1
CGO_ENABLED=1 go test $M -race -tags verifrace -c -o "$W/race.test" ./props || rc=1
GOARCH=386 go test $M -c -o "$W/386.test" ./props || rc=1
strace -f -e trace=write -o "$W/trace" true || echo "strace does not work here: fewer kinds of crashes are explored"
exit $rc
