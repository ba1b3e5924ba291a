#!/bin/bash
# check.sh ID: decides one property on /repo's current source.
# Exit 0: holds. Exit 1: VIOLATION line printed.
here=$(cd "$(dirname "$0")" && pwd)
id=$1
export HOME=${HOME:-/root}
export GOCACHE=${GOCACHE:-/tmp/trisa-gocache}
export GOPROXY=off GOTOOLCHAIN=local GOWORK=off
export PATH=$PATH:/usr/local/go/bin:/opt/veriftools/bin
mkdir -p "$here/evidence"
bin=$here/sa/bin/trisa
if [ ! -x "$bin" ] || [ -n "$(find "$here/sa" -maxdepth 1 \( -name '*.go' -o -name go.mod \) -newer "$bin" -print -quit)" ]; then
  bash "$here/build.sh" || { echo "cannot build the analyser"; exit 2; }
fi
"$bin" -repo "${REPO:-/repo}" -check "$id" -evidence "$here/evidence/$id.json" -known "$here/known-findings.json"
rc=$?
[ $rc -gt 1 ] && { echo "analyser failed (rc=$rc)"; exit 2; }
exit $rc
