#!/bin/bash
# Builds the symbolic engine from the committed sources (offline).
set -e
cd "$(dirname "$0")/engine"
export HOME=/root GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off CGO_ENABLED=0 GOTOOLCHAIN=local
mkdir -p ../bin
go build -o ../bin/engine .
