#!/bin/bash
# Warms the build cache; every check rebuilds what it needs by itself.
set -eu
cd "$(dirname "$0")/sim"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
go build -o /dev/null ./cmd/vsim
go vet ./cmd/vsim >/dev/null 2>&1 || true
