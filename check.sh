#!/bin/bash
# usage: check.sh <property> [quick|thorough]   builds the monitor from /repo's working tree and decides one property
set -u
prop=${1:?property}; tier=${2:-${VERIF_TIER:-quick}}; seed=${VERIF_SEED:-1}
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
repo=${VERIF_REPO:-/repo}
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local
work=$(mktemp -d "${TMPDIR:-/tmp}/cpmon.XXXXXXXX") || exit 3
trap 'rm -rf "$work"' EXIT
cp "$here"/harness/*.go "$here"/harness/go.mod "$work"/ || exit 3
[ "$repo" = /repo ] || sed -i "s#=> /repo#=> $repo#" "$work/go.mod"
cd "$work" || exit 3
build() { # name, extra args
  local name=$1; shift
  if ! go build "$@" -o "$work/bin-$name" . >"$work/build-$name.log" 2>&1; then
    echo "ERROR: build of the $name monitor failed"; cat "$work/build-$name.log"; exit 3
  fi
}
if [ "$prop" = C19 ]; then
  CGO_ENABLED=1 build race -race
  bins="race=$work/bin-race"; main="$work/bin-race"
else
  build release & p1=$!
  build debug -tags debug & p2=$!
  wait $p1 || { cat "$work"/build-release.log; exit 3; }
  wait $p2 || { cat "$work"/build-debug.log; exit 3; }
  bins="release=$work/bin-release,debug=$work/bin-debug"; main="$work/bin-release"
fi
"$main" -property "$prop" -tier "$tier" -seed "$seed" -evidence "$here/evidence/$prop.json" \
  -replays "$here/evidence/replays" -known "$here/known_findings.json" -bins "$bins"
exit $?
