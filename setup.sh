#!/bin/bash
# Compiles the monitors once (plain and race builds) so that the build cache is warm.
set -eu
cd "$(dirname "$0")/harness"
export GOWORK=off GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
unset GOROOT
out=$(mktemp -d /tmp/verif-setup.XXXXXX)
trap 'rm -rf "$out"' EXIT
go build -o "$out/vmon" ./cmd/vmon
go build -race -o "$out/vmon-race" ./cmd/vmon
