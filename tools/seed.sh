#!/bin/bash
# seed.sh ID...: validates planted bugs in a scratch copy of /repo and shows which checks report them.
export PATH=/opt/veriftools/go1.27.3/bin:$PATH HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
V=$(cd "$(dirname "$0")/.." && pwd)
bash "$V/check.sh" build || exit 2
for id in "$@"; do
  D=$V/seeded/$id
  W=$(mktemp -d /tmp/seedXXXXXX)
  cp -a /repo "$W/repo"; mkdir -p "$W/verif"; cp "$V/known_findings.txt" "$W/verif/" 2>/dev/null
  r=""
  cd "$W/repo"
  if [ -z "$NODEMO" ]; then bash "$D/demo.sh" >"$W/d0" 2>&1 || { r="$r DEMO-FAILS-UNCHANGED"; tail -5 "$W/d0"; }; fi
  if git apply "$D/patch.diff"; then
    go build ./... || r="$r NOBUILD"
    if [ -z "$NODEMO" ]; then
      PKGS=$(go list -e ./... | grep -vx github.com/BTBurke/monny/pkg/monny)
      go test -json -vet=off -count=1 -timeout 5m $PKGS >"$W/t.json" 2>/dev/null </dev/null
      python3 - "$W/t.json" <<'P' || r="$r TESTS-BROKEN"
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))
names=b if isinstance(b,list) else next(v for v in b.values() if isinstance(v,list))
res={}
for l in open(sys.argv[1]):
    try: e=json.loads(l)
    except Exception: continue
    if e.get('Test') and e['Action'] in('pass','fail','skip'): res[e['Package']+'|'+e['Test']]=e['Action']
ok={k.replace('github.com/BTBurke/monny/','') for k,v in res.items() if v=='pass'}
import re
def norm(s): return re.sub(r'[^A-Za-z0-9]+','.',s.replace('github.com/BTBurke/monny/',''))
okn={norm(k) for k in ok}
bad=[n for n in names if norm(n if isinstance(n,str) else str(n)) not in okn]
if bad: print('failed tests',bad[:5],len(bad))
sys.exit(1 if bad else 0)
P
      bash "$D/demo.sh" >"$W/d1" 2>&1 && r="$r DEMO-PASSES-PATCHED"
    fi
    MONNY_REPO="$W/repo" MONNY_VERIF="$W/verif" GOFLAGS=-mod=readonly "$V/.bin/monnyverif" checkall >"$W/c" 2>&1
    hit=$(grep -o 'VIOLATION property=[A-Z0-9]*' "$W/c" | sed 's/.*=//' | tr '\n' ' ')
  else r="$r NOAPPLY"; fi
  want=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  case " $hit " in *" $want "*) s=caught;; *) s=MISSED;; esac
  echo "$id [$want] $s by: $hit |$r"
  [ -n "$SHOW" ] && grep -v ' held' "$W/c" | head -20
  cd /; rm -rf "$W"
done
