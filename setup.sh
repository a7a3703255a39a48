#!/bin/sh
# builds the symbolic executor from the committed sources, offline
cd "$(dirname "$0")/engine" || exit 2
mkdir -p ../bin ../evidence
GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0 go build -o ../bin/gosym .
