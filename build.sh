#!/bin/bash
# Builds the verifier from the committed sources (offline).
cd "$(dirname "$0")/gvc" || exit 2
export PATH=/opt/veriftools/go1.26.10/bin:$PATH HOME=/root GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=0
unset GOROOT
mkdir -p ../bin
exec go build -o ../bin/gvc .
