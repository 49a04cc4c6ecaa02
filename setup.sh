#!/bin/bash
# Warms the Go build cache; every check rebuilds from /repo anyway.
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 1
mkdir -p evidence
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local
work=$(mktemp -d) || exit 1
trap 'rm -rf "$work"' EXIT
cp harness/*.go harness/go.mod "$work"/ && cd "$work" || exit 1
go build -o m1 . && go build -tags debug -o m2 . && CGO_ENABLED=1 go build -race -o m3 .
