#!/bin/bash
# Runs demo_test.go as part of package @PKG@ of the repository in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
export HOME="${HOME:-/root}"
export PATH=/opt/veriftools/go1.23.12/bin:$PATH GOROOT=/opt/veriftools/go1.23.12 GOPATH=/root/go
export GOMODCACHE=/root/go/pkg/mod GOCACHE="${GOCACHE:-/root/.cache/go-build}"
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace": {"%s": "%s"}}\n' "$PWD/@PKG@/zz_demo_test.go" "$here/demo_test.go" > "$tmp/overlay.json"
go test -vet=off -count=1 -timeout 120s -tags=nolog -ldflags=-checklinkname=0 \
	-overlay "$tmp/overlay.json" -run '^TestDemo' "./@PKG@"
