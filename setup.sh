#!/bin/bash
# Compiles everything once so that the checks start from a warm build cache.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS=-mod=mod CGO_ENABLED=0
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
work=$(mktemp -d /tmp/verif-setup.XXXXXX)
trap '/bin/rm -rf "$work"' EXIT
cp -r "$here/harness" "$here/rt" "$here/instr" "$work/"
(cd "$work/instr" && go build -trimpath -o "$work/instr.bin" .)
"$work/instr.bin" "${VERIF_REPO:-/repo}" "$work/harness/.src"
(cd "$work/harness" && go build -trimpath -o "$work/" ./cmd/...)
echo "built $(ls "$work"/harness/cmd | wc -l) harnesses"
