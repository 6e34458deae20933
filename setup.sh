#!/bin/bash
# Warms the Go build cache for the harnesses (every check builds what it needs from /repo's tree by itself).
export HOME=/root PATH=/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off CGO_ENABLED=1 GOSUMDB=off
export GOCACHE=/root/.cache/go-build GOMODCACHE=/root/go/pkg/mod
cd "$(dirname "$0")/harness" && go vet ./... >/dev/null 2>&1 || go build ./... || exit 1
exit 0
