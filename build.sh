#!/bin/bash
# Builds the analyser from /verif/sa (vendored, offline).
set -e
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
export GOCACHE=${GOCACHE:-/tmp/trisa-gocache}
export GOFLAGS= GO111MODULE=on GOPROXY=off GOTOOLCHAIN=local GOWORK=off
export PATH=$PATH:/usr/local/go/bin:/opt/veriftools/bin
cd "$here/sa"
mkdir -p bin
go build -mod=vendor -o "bin/trisa.$$" .
mv -f "bin/trisa.$$" bin/trisa
