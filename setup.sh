#!/bin/bash
# Compiles the monitors once, so that the checks find warm compiler caches.
set -u
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
export GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
cd "$(dirname "$0")/harness" || exit 1
W=$(mktemp -d) || exit 1
trap 'rm -rf "$W"' EXIT
cp go.mod go.sum "$W"
go build -modfile="$W/go.mod" -cover -covermode=set -coverpkg=github.com/ipfs/go-ipld-git,verif/harness -o "$W/mon" . &&
go build -modfile="$W/go.mod" -race -o "$W/mon-race" .
