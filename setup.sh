#!/bin/bash
# Builds the harness once, with and without the race detector, to fill the build cache.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.25.14/bin:$PATH HOME=/root
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
cd "$here/harness" && go build -o /dev/null . && go build -race -o /dev/null .
