#!/bin/bash
# Builds bin/pgvc from the committed sources (offline).
set -e
cd "$(dirname "$0")/../pgvc"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GONOSUMDB='*' GONOSUMCHECK=1 GOSUMDB=off CGO_ENABLED=0 GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOPATH=${GOPATH:-/root/go}
export GOCACHE=${PGVC_BUILDCACHE:-/verif/.gocache}
mkdir -p ../bin
go build -o ../bin/pgvc.new ./cmd/pgvc
mv -f ../bin/pgvc.new ../bin/pgvc
