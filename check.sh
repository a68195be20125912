#!/bin/bash
# check.sh ID: decide one property on /repo's current working tree.
d="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off VSTAT_DIR="$d" VSTAT_REPO="${VSTAT_REPO:-/repo}"
[ -r /opt/vp/env.sh ] && . /opt/vp/env.sh
if [ ! -x "$d/bin/vstat" ] || [ -n "$(find "$d/vstat" -newer "$d/bin/vstat" \( -name '*.go' -o -name go.mod \) -print -quit)" ]; then
  bash "$d/build.sh" || exit 2
fi
exec "$d/bin/vstat" check "$1"
