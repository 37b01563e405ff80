#!/bin/bash
# usage: plant.sh ID...   verifies planted bugs of ../seeded in a scratch copy and runs the check of their property against it
. /opt/vp/env.sh
root="$(cd "$(dirname "$0")/.." && pwd)"
S=$(mktemp -d /tmp/plant.XXXXXX); trap 'rm -rf "$S"' EXIT
CHK=${CHK:-/tmp/chk}
for id in "$@"; do
  d=$root/seeded/$id; R=$S/$id
  cp -a /repo "$R" || exit 1
  prop=$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")
  cp -r "$d" "$S/demo"; rm -f "$S/demo/patch.diff" "$S/demo/meta.json"
  (cd "$R" && bash "$S/demo/demo.sh" >"$S/o1" 2>&1); a=$?
  (cd "$R" && git apply "$d/patch.diff") || { echo "$id: patch does not apply"; continue; }
  (cd "$R" && go build ./... >"$S/b" 2>&1) || { echo "$id: does not build"; head -5 $S/b; continue; }
  t=ok
  if [ -z "$NOTEST" ]; then
  (cd "$R" && go test -json -vet=off -count=1 -timeout 10m ./... >"$S/go.json" 2>/dev/null)
  python3 /opt/vp/results.py "$S/out.json" "gojson:$S/go.json" >/dev/null 2>&1
  t=$(python3 - "$S/out.json" <<'PY'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=json.load(open(sys.argv[1]))
p=set(o.get('passed') or o.get('pass') or [])
bad=[x for x in b if x not in p]
print('ok' if not bad else 'FAILS '+','.join(bad))
PY
)
  fi
  (cd "$R" && timeout 300 bash "$S/demo/demo.sh" >"$S/o2" 2>&1); c=$?
  mkdir -p $S/ev; rm -f $S/ev/*; cp $root/known_findings.txt $S/
  (cd "$root" && "$CHK" -repo "$R" -prop "$prop" -tier quick -evidence $S/ev >"$S/o3" 2>&1); k=$?
  v=missed; [ $k = 1 ] && v=CAUGHT
  echo "$id [$prop] demo clean=$a patched=$c tests=$t check=$k $v :: $(grep -m1 "^C[0-9]* \[" $S/o3)"
  [ $a != 0 ] && tail -15 $S/o1; [ $c = 0 ] && tail -5 $S/o2
  rm -rf "$R" "$S/demo"
done
