#!/bin/bash
# Builds the verifier; each check builds it itself when this has not run.
cd "$(dirname "$0")/../govc" || exit 1
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off
mkdir -p ../.build && go build -o ../.build/govc .
