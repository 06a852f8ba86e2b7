#!/bin/bash
# Builds the checker from the committed sources (offline, vendored modules).
set -e
cd "$(dirname "$0")"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
mkdir -p bin
cd checker
GOFLAGS=-mod=vendor GOWORK=off GOPROXY=off GOTOOLCHAIN=local CGO_ENABLED=0 go build -o ../bin/checker .
