#!/bin/bash
# usage: replay.sh FILE [debug]   re-runs one recorded violation against /repo's working tree
f=$(realpath "$1"); here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local
work=$(mktemp -d) || exit 3
trap 'rm -rf "$work"' EXIT
cp "$here"/harness/*.go "$here"/harness/go.mod "$work"/ && cd "$work" && go build ${2:+-tags $2} -o m . && ./m replay "$f"
