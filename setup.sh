#!/bin/bash
# Warms the Go build cache; the checks build everything they need themselves.
set -u
cd "$(dirname "$0")/harness" || exit 1
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off
S="$(mktemp -d /tmp/vh.XXXXXXXX)" || exit 1
trap 'rm -rf -- "$S"' EXIT
cp go.mod go.sum "$S/" || exit 1
go build -modfile="$S/go.mod" -tags all -o "$S/h" . || exit 1
go build -race -modfile="$S/go.mod" -tags all -o "$S/h" . || exit 1
"$S/h" list
