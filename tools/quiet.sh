#!/bin/bash
# quiet.sh [ID...]: applies behaviour-preserving edits to a scratch copy of /repo; every check must stay quiet.
export PATH=/opt/veriftools/go1.27.3/bin:$PATH HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
V=$(cd "$(dirname "$0")/.." && pwd)
bash "$V/check.sh" build || exit 2
[ $# -gt 0 ] || set -- $(cd "$V/quiet" && ls *.diff | sed 's/.diff//')
for id in "$@"; do
  W=$(mktemp -d /tmp/quietXXXXXX)
  cp -a /repo "$W/repo"; mkdir -p "$W/verif"; cp "$V/known_findings.txt" "$W/verif/" 2>/dev/null
  cd "$W/repo"; r=""
  if git apply "$V/quiet/$id.diff"; then
    go build ./... || r="NOBUILD"
    if [ -n "$TESTS" ]; then SHELL=/bin/sh go test -vet=off -count=1 -skip "TestHandlerCalls|TestErrorEvent" ./... >"$W/t" 2>&1 </dev/null || r="$r TESTS"; fi
    MONNY_REPO="$W/repo" MONNY_VERIF="$W/verif" GOFLAGS=-mod=readonly "$V/.bin/monnyverif" checkall >"$W/c" 2>&1
    hit=$(grep -o 'VIOLATION property=[A-Z0-9]*' "$W/c" | sed 's/.*=//' | tr '\n' ' ')
  else r="NOAPPLY"; fi
  echo "$id ${hit:+ALARM by $hit} $r"
  [ -n "$hit" ] && grep -v ' held' "$W/c" | head -${LINES_SHOWN:-12}
  cd /; rm -rf "$W"
done
