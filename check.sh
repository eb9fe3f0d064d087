#!/bin/bash
# Decides one property: check.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")" || exit 1
here=$(pwd)
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
bin=$here/bin/absint
if ! { mkdir -p "$here/bin" && (cd "$here/absint" && go build -o "$bin.$$" .) && mv -f "$bin.$$" "$bin"; }; then
  rm -f "$bin.$$"
  echo "the analysis doesn't build"
  exit 2
fi
exec "$bin" -prop "$prop" -tier "$tier" -repo "${REPO:-/repo}" -verif "${OUT:-$here}"
