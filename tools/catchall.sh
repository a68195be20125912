#!/bin/bash
# catchall.sh [ID...]: run every check on each planted bug (in a scratch copy) and record in caught.json which report it.
. /opt/vp/env.sh
v=$(cd "$(dirname "$0")/.." && pwd)
w=$(mktemp -d /tmp/catchall.XXXXXX)
trap 'rm -rf "$w"' EXIT
cp -a /repo "$w/repo"; mkdir "$w/v"; ln -s "$v/vstat" "$w/v/vstat"; cp "$v/KNOWN_FINDINGS.txt" "$w/v"
cd "$w/repo" || exit 1
[ $# = 0 ] && set -- $(ls "$v/seeded")
for id in "$@"; do
  git checkout -q -- . && git clean -fdq
  git apply "$v/seeded/$id/patch.diff" || continue
  VSTAT_REPO="$w/repo" VSTAT_DIR="$w/v" "$v/bin/vstat" check all >"$w/log" 2>&1
  by=$(grep '^VIOLATION' "$w/log" | sed 's/.*property=\([A-Z0-9]*\).*/\1/' | sort -u | tr '\n' ' ')
  python3 - "$v/tools/caught.json" "$id" "${by:-nothing}" <<'P'
import json,os,sys
f,i,b=sys.argv[1:]
c=json.load(open(f)) if os.path.exists(f) else {}
c[i]=b.strip()
json.dump(c,open(f,'w'),indent=1,sort_keys=True)
P
  echo "$id: $by"
done
