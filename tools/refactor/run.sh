#!/bin/bash
# run.sh KINDS [IDS...]: applies the edits to every source file in a scratch copy and runs the quick checks on it.
set -u
kinds=$1; shift
here=$(cd "$(dirname "$0")/../.." && pwd)
w=$(mktemp -d /tmp/refactor.XXXXXX); trap '/bin/rm -rf "$w"' EXIT
export GOWORK=off GOFLAGS=-mod=mod CGO_ENABLED=0
(cd "$here/tools/refactor" && go build -o "$w/tool" .) || exit 3
mkdir "$w/repo"; git -C /repo archive HEAD | tar -C "$w/repo" -xf -
cd "$w/repo"
for f in $(find . -name '*.go' -not -name '*_test.go' | sort); do
	cp "$f" "$w/old"
	"$w/tool" "$f" "$kinds" "$w/new" && cp "$w/new" "$f"
	d=.; case $f in ./nurbs/*) d=nurbs ;; esac
	(cd $d && go build ./... > "$w/log" 2>&1) || { echo "$f: kept as it was: $(head -3 "$w/log" | tail -1)"; cp "$w/old" "$f"; }
done
ids=${*:-$(python3 -c "import json;[print(json.loads(l)['id']) for l in open('$here/properties.jsonl')]")}
for i in $ids; do
	VERIF_REPO=$w/repo bash "$here/check.sh" "$i" quick > "$w/out" 2>&1; rc=$?
	echo "$kinds $i rc=$rc $(tail -1 "$w/out" | cut -c1-160)"
done
