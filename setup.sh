#!/bin/bash
# Builds every harness package once, which shows that the framework builds here and warms the Go build cache.
set -e
cd "$(dirname "$0")/harness"
export PATH=/opt/veriftools/go1.23.12/bin:$PATH GOTOOLCHAIN=local GOFLAGS=-mod=readonly GOPROXY=off GOSUMDB=off CGO_ENABLED=1
unset GOROOT GOWORK
go test -count=1 -run '^$' ./...
echo setup done
