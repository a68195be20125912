#!/bin/bash
# tryseed.sh ID...: confirm planted bugs in a scratch copy of /repo, and run the checks on them.
# NOTEST=1 skips the stable tests; CHECKS="..." names the checks to run (default: the bug's property).
. /opt/vp/env.sh
v=$(cd "$(dirname "$0")/.." && pwd)
w=$(mktemp -d /tmp/tryseed.XXXXXX)
trap 'rm -rf "$w"' EXIT
cp -a /repo "$w/repo"; mkdir "$w/v"; ln -s "$v/vstat" "$w/v/vstat"
cd "$w/repo" || exit 1
for id in "$@"; do
  git checkout -q -- . && git clean -fdq
  d="$w/d"; rm -rf "$w/d"; mkdir "$d"; cp "$v/seeded/$id/"* "$d"; rm -f "$d"/*.diff "$d"/meta.json
  prop=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "$v/seeded/$id/meta.json")
  res="$id ($prop):"
  if [ -z "$NOCLEAN" ]; then
    if timeout 300 bash "$d/demo.sh" >"$w/log0" 2>&1; then res="$res clean-ok"; else res="$res CLEAN-FAILS"; tail -15 "$w/log0"; fi
  fi
  git apply "$v/seeded/$id/patch.diff" || { echo "$res NO-APPLY"; continue; }
  go build ./... >"$w/logb" 2>&1 || { echo "$res NO-BUILD"; head "$w/logb"; continue; }
  if timeout 300 bash "$d/demo.sh" >"$w/log1" 2>&1; then res="$res DEMO-PASSES-WITH-BUG"; else res="$res demo-fails"; fi
  [ -n "$SHOW" ] && tail -5 "$w/log1"
  for c in ${CHECKS:-$prop}; do
    VSTAT_REPO="$w/repo" VSTAT_DIR="$w/v" "$v/bin/vstat" check $c >"$w/logc" 2>&1; s=$?
    if [ $s = 1 ] && grep -q '^VIOLATION' "$w/logc"; then res="$res caught($(grep -c '^property' "$w/logc") by $(grep '^VIOLATION' "$w/logc"|sed 's/.*property=\([A-Z0-9]*\).*/\1/'|tr '\n' ' '))"; [ -n "$SHOW" ] && cut -c1-300 "$w/logc"|head -12; else res="$res MISSED[$s]"; tail -3 "$w/logc"; fi
  done
  if [ -z "$NOTEST" ]; then
    go test -json -vet=off -count=1 -timeout 12m -skip '^TestReal' ./... >"$w/t.json" 2>/dev/null
    res="$res $(python3 - "$w/t.json" <<'P'
import json,sys
ok=set();bad=set()
for l in open(sys.argv[1]):
    try: e=json.loads(l)
    except: continue
    if e.get("Test") and e["Action"] in("pass","fail"):
        (ok if e["Action"]=="pass" else bad).add(e["Package"]+"/"+e["Test"])
st=set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
m=[t for t in st if t not in ok]
print("tests-ok" if not m else "TESTS-FAIL "+",".join(m))
P
)"
  fi
  echo "$res"
done
