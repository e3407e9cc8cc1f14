#!/bin/bash
# Builds the verifier from its sources (offline, vendored dependencies).
set -e
cd "$(dirname "$0")/govc"
mkdir -p ../bin
GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local GO111MODULE=on CGO_ENABLED=0 go build -o ../bin/govc .
