#!/bin/bash
# try.sh REPO PROPERTY [tier]: decide a property on another copy of the repository (development only)
repo=$1 prop=$2 tier=${3:-quick}
here=$(cd "$(dirname "$0")/.." && pwd)
t=$(mktemp -d /tmp/try.XXXXXX) || exit 2
trap 'rm -rf "$t"' EXIT
cp -r "$here/harness" "$here/properties.jsonl" "$here/known_findings.txt" "$t/"
mkdir "$t/evidence" "$t/replays"
sed -i "s#=> /repo#=> $repo#" "$t/harness/go.mod"
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off GOCACHE=${TRYCACHE:-$here/bin/gocache}
VERIF_DIR=$t ${SYMGO:-$here/bin/symgo} check -property "$prop" -tier "$tier"
rc=$?
[ -n "$KEEP" ] && cp -r "$t/replays" "$t/evidence" "$KEEP/"
exit $rc
