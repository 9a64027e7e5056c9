#!/bin/bash
# check.sh PROPERTY quick|thorough [replay-file]
# Builds the harness against /repo's current working tree and runs one property.
set -u
here=$(cd "$(dirname "$0")" && pwd)
prop=$1; tier=${2:-quick}; shift; [ $# -gt 0 ] && shift
export PATH=/usr/local/go/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GO111MODULE=on GOSUMDB=off
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
cp -r "$here/harness" "$tmp/src" || exit 3
# checkptr: runtime checks of unsafe pointer arithmetic in the code under test
flags=(-gcflags=github.com/tinne26/ggfnt/...=-d=checkptr)
case $prop in P22) flags=(-race);; esac
if [ "$prop" = setup ]; then # warm the build cache
	(cd "$tmp/src" && go build "${flags[@]}" -o "$tmp/vchk" . && go build -race -o "$tmp/vchk" .)
	exit
fi
(cd "$tmp/src" && go build "${flags[@]}" -o "$tmp/vchk" .) >"$tmp/build.log" 2>&1 || { cat "$tmp/build.log"; echo "harness: build failed"; exit 3; }
"$tmp/vchk" "$here" "$prop" "$tier" "$@"
