#!/bin/bash
# Builds the symbolic executor from the committed sources (no network).
set -e
cd "$(dirname "$0")"
export GOFLAGS=-mod=mod GOTOOLCHAIN=local GOPROXY=off CGO_ENABLED=0 GOWORK=off
mkdir -p bin evidence
(cd engine && go build -o ../bin/vsym ./cmd/vsym)
