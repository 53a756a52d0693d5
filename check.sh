#!/bin/bash
# check.sh ID: decides one property on /repo's working tree; 'check.sh build' only builds the analyzer.
cd "$(dirname "$0")" || exit 2
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off
mkdir -p .bin evidence
( cd analyzer && GOFLAGS=-mod=vendor go build -o ../.bin/monnyverif . ) || exit 2
[ "$1" = build ] && exit 0
export GOFLAGS=-mod=readonly MONNY_VERIF="${MONNY_VERIF:-$PWD}"
exec .bin/monnyverif check "$1"
