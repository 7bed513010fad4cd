#!/bin/bash
# Warms the build cache; every check builds what it needs by itself.
cd "$(dirname "$0")/mc" && HOME=/root GOTOOLCHAIN=local GOFLAGS= GOPROXY=off GO111MODULE=on GOWORK=off GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build go build -buildvcs=false -o /dev/null . 
exit 0
