#!/bin/bash
# Builds the engine from source into .build/ (a no-op when it is up to date).
cd "$(dirname "$0")/engine" || exit 2
export PATH=/opt/veriftools/go1.26.10/bin:$PATH HOME="${HOME:-/root}"
unset GOROOT
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GONOSUMDB='*' GOFLAGS=-mod=mod
mkdir -p ../.build
exec go build -o ../.build/vengine .
