#!/bin/bash
# exit 0: the property holds for the demonstrated case
D=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GO=-mod=mod GOWORK=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
T=$(mktemp -d) || exit 1
trap 'rm -rf -- "$T"' EXIT
export TMPDIR=$T
echo "{\"Replace\": {\"$PWD/zz_demo_test.go\": \"$D/demo_test.go.txt\"}}" > "$T/overlay.json"
go test -vet=off -count=1 -timeout 120s -overlay "$T/overlay.json" -run 'TestZZDemo' .
