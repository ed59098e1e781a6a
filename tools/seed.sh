#!/bin/bash
# seed.sh ID...        confirm planted changes and run their property's check on each
# seed.sh new ID PROP  record /repo's uncommitted diff as seeded/ID (demo.go from stdin), then confirm it
V=/verif
. $V/env.sh
confirm() {
  local id=$1 d=$V/seeded/$1 p
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  [ -z "$(git -C /repo status --porcelain)" ] || { echo "repo dirty"; return 1; }
  (cd /repo && bash $d/demo.sh >/tmp/seed.demo0 2>&1) || { echo "$id: demo fails on the clean tree"; tail -5 /tmp/seed.demo0; return 1; }
  git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; return 1; }
  # only original lines
  if git -C /repo diff -U0 | python3 -c "
import sys,re,subprocess
f=None
bad=0
for l in sys.stdin:
    if l.startswith('--- a/'): f=l[6:].strip()
    m=re.match(r'@@ -(\d+)(?:,(\d+))? ',l)
    if m:
        s,n=int(m[1]),int(m[2] or 1)
        if n:
            o=subprocess.run(['git','-C','/repo','blame','-s','-l','-L',f'{s},+{n}','HEAD','--',f],capture_output=True,text=True).stdout
            for b in o.splitlines():
                if not b.lstrip('^').startswith('73018c0'): print('  not an original line:',b[40:]); bad=1
sys.exit(bad)
"; then :; else echo "$id: touches non-original lines"; fi
  bash /opt/vp/build.sh >/tmp/seed.build 2>&1 || { echo "$id: does not build"; cat /tmp/seed.build; git -C /repo checkout -- .; return 1; }
  bash /opt/vp/test.sh /tmp/seed.json >/dev/null 2>&1
  python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seed.json'))
ok=o.get('passed') or [k for k,v in o.get('tests',o).items() if v in('pass','passed',True)]
m=[t for t in b['stable'] if t not in set(ok)]
print('$id: tests', 'all pass' if not m else 'FAIL '+str(m[:5]))
P
  if (cd /repo && timeout 300 bash $d/demo.sh >/tmp/seed.demo1 2>&1); then echo "$id: DEMO PASSES WITH THE CHANGE"; fi
  if [ -z "$NOCHECK" ]; then
    s=$(date +%s); (cd $V && timeout 900 ./check.sh ${CHECK:-$p} ${TIER:-quick} >/tmp/seed.check 2>&1); rc=$?; e=$(date +%s)
    if [ $rc = 1 ] && grep -q "^VIOLATION property=$p" /tmp/seed.check; then echo "$id: caught by $p ($((e-s)) s): $(grep -A3 '^VIOLATION' /tmp/seed.check | sed -n 2,4p | tr '\n' ' ' | cut -c1-220)"; else echo "$id: MISSED by $p rc=$rc ($((e-s)) s)"; tail -2 /tmp/seed.check; fi
  fi
  git -C /repo checkout -- . ; git -C /repo clean -fdq
}
if [ "$1" = new ]; then
  id=$2; d=$V/seeded/$id; mkdir -p $d
  git -C /repo diff > $d/patch.diff; git -C /repo checkout -- .
  cat > $d/main.go
  cat > $d/demo.sh <<'D'
#!/bin/bash
# builds main.go (beside this file) against the tree in the current directory
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
H=$(cd "$(dirname "$0")" && pwd); R=$(pwd)
T=$(mktemp -d) || exit 99
trap 'rm -rf "$T"' EXIT
cp "$H/main.go" "$T/main.go"
printf 'module demo\n\ngo 1.22.0\n\nrequire github.com/textwire/textwire/v2 v2.0.0\n\nreplace github.com/textwire/textwire/v2 => %s\n' "$R" > "$T/go.mod"
cd "$T" && go build -mod=mod -o demo . && mkdir run && cd run && ../demo
D
  [ -n "${RACE:-}" ] && sed -i 's/ go build / CGO_ENABLED=1 go build -race /' $d/demo.sh
  NEEDS="$4" BREAKS="$5" python3 -c "
import json,os
json.dump({'property':'$3','needs':os.environ['NEEDS'],'what_it_breaks':os.environ['BREAKS']},open('$d/meta.json','w'),indent=1)"
  confirm $id
else
  for i in "$@"; do confirm $i; done
fi
