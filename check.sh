#!/bin/bash
# check.sh ID [quick|thorough]       decide property ID on /repo's working tree
# check.sh ID replay FILE            re-run one recorded execution
# Instruments a scratch copy of /repo's packages, builds the harness against it,
# and explores. Exit 0: held; 1: VIOLATION; 3: the check itself could not run.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
id=${1:?property id}
mode=${2:-${VERIF_TIER:-quick}}
case $id in
P*) cmd=pred ;; R*) cmd=vec ;; G*) cmd=shapes ;; X*) cmd=export ;; N*) cmd=spline ;;
T*) cmd=tri2 ;; M*|Q*) cmd=tetra ;; S*) cmd=stepf ;; C*) cmd=cross ;;
*) echo "unknown property $id" >&2; exit 3 ;;
esac
export HOME=${HOME:-/root} PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS=-mod=mod CGO_ENABLED=0
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
work=$(mktemp -d /tmp/verif-check.XXXXXX) || exit 3
trap '/bin/rm -rf "$work"' EXIT
mkdir -p "$here/evidence" "$work/run"
# the code under test runs as an unprivileged user, which works in run/ only
chmod 755 "$work" && chmod 777 "$work/run"
umask 022
cp -r "$here/harness" "$work/harness" && cp -r "$here/rt" "$work/rt" && cp -r "$here/instr" "$work/instr" || exit 3
(cd "$work/instr" && go build -trimpath -o "$work/instr.bin" .) || exit 3
"$work/instr.bin" "$repo" "$work/harness/.src" || exit 3
(cd "$work/harness" && go build -trimpath -o "$work/harness.bin" "./cmd/$cmd") || exit 3
# C01 also looks for data races: the same harness with Go's race detector, where it can be built
if [ "$cmd" = cross ] && [ "$id" = C01 ]; then
	(cd "$work/harness" && CGO_ENABLED=1 go build -race -trimpath -o "$work/harness-race.bin" "./cmd/$cmd") ||
		echo "note: no build with the race detector here, data races are not looked for" >&2
fi
case $mode in
replay) "$work/harness.bin" replay -prop "$id" -replay "${3:?replay file}"; exit $? ;;
esac
"$work/harness.bin" check -prop "$id" -tier "$mode" -seed "${VERIF_SEED:-1}" -work "$work/run" \
	-workers "${VERIF_WORKERS:-8}" -known "$here/known_findings.json" -evidence "$here/evidence/$id.json"
rc=$?
case $rc in 0|1) exit $rc ;; *) exit 3 ;; esac
