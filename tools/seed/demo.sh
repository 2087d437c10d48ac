#!/bin/bash
# Runs the demonstration beside this file against the tree in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
root=$(pwd)
export HOME=/root PATH=/opt/veriftools/go1.23.12/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=readonly -buildvcs=false" CGO_ENABLED=1
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cat > "$tmp/overlay.json" <<J
{"Replace":{"$root/server/zz_helper_test.go":"$here/helper_test.go","$root/server/zz_demo_test.go":"$here/demo_test.go"}}
J
export TMPDIR="$tmp"
go test -overlay "$tmp/overlay.json" -vet=off -count=1 -timeout 240s -run '^TestDemo$' ./server
