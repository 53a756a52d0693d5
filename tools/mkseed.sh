#!/bin/bash
# mkseed.sh ID PROPERTY PKG: turns the edits in /tmp/sd/repo into seeded/ID with /tmp/sd/demo_test.go as demonstration;
# reads meta text from stdin: first line = needs, rest = what it breaks.
V=$(cd "$(dirname "$0")/.." && pwd)
D=$V/seeded/$1; mkdir -p "$D"
git -C /tmp/sd/repo diff > "$D/patch.diff"
git -C /tmp/sd/repo checkout -q -- .
[ -f /tmp/sd/demo_test.go ] && mv /tmp/sd/demo_test.go "$D/demo_test.txt"
cat > "$D/demo.sh" <<S
#!/bin/bash
d=\$(cd "\$(dirname "\$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:\$PATH HOME=/root SHELL=/bin/sh GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
t=\$(mktemp -d)
trap 'rm -rf "\$t"' EXIT
cp "\$d/demo_test.txt" "\$t/demo_test.go"
echo "{\\"Replace\\":{\\"\$PWD/$3/zz_seed_test.go\\":\\"\$t/demo_test.go\\"}}" > "\$t/o.json"
timeout 280 go test $4 -vet=off -count=1 -timeout 120s -overlay "\$t/o.json" -run 'TestSeed' ./$3 </dev/null
S
python3 - "$D" "$2" <<'P'
import sys,json
t=sys.stdin.read() if False else open('/tmp/sd/meta').read()
n,_,w=t.partition('\n')
json.dump({"property":sys.argv[2],"needs":n.strip(),"what_it_breaks":w.strip()},open(sys.argv[1]+'/meta.json','w'),indent=1)
P
echo "made $1"; wc -l "$D/patch.diff"
