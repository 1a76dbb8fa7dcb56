#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough] | check.sh replay FILE | check.sh build OUT [race]
# Builds the monitors against /repo's working tree and runs one of them.
V="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$V" VERIF_REPO="${VERIF_REPO:-/repo}"
export HOME="${HOME:-/root}"
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off CGO_ENABLED=1
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
export GOCACHE="${GOCACHE:-/root/.cache/go-build}"
T="$(mktemp -d /tmp/jvmon.XXXXXX)" || { echo "ERROR no scratch directory"; exit 3; }
trap 'rm -rf "$T"' EXIT
mkdir -p "$GOCACHE" 2>/dev/null || export GOCACHE="$T/gocache"

build() { # OUT [race]
  cp "$V"/harness/*.go "$T"/ || return 1
  {
    echo "module harness"
    echo "go 1.22"
    echo "require yunion.io/x/jsonutils v0.0.0"
    echo "replace yunion.io/x/jsonutils => $VERIF_REPO"
    sed -n '/^require (/,/^)/p; /^require [^(]/p; /^replace /p' "$VERIF_REPO/go.mod"
  } > "$T/go.mod"
  cp "$VERIF_REPO/go.sum" "$T/go.sum" 2>/dev/null
  local flags=""
  [ "$2" = race ] && flags="-race"
  ( cd "$T" && go build $flags -o "$1" . ) > "$T/build.log" 2>&1 || { echo "ERROR build failed"; tail -50 "$T/build.log"; return 1; }
}

case "$1" in
  warm) # fill the build cache
    build "$T/h" || exit 3
    build "$T/hr" race || exit 3
    exit 0 ;;
  build) build "$2" "$3" || exit 3; exit 0 ;;
  replay)
    grep -q '"property": "C19"' "$2" && R=race
    build "$T/h" $R || exit 3
    "$T/h" replay "$2"; exit $? ;;
esac
P="$1"; TIER="${2:-${VERIF_TIER:-quick}}"
[ "$P" = C19 ] && R=race
build "$T/h" $R || exit 3
export VERIF_SEED="${VERIF_SEED:-1}"
"$T/h" check "$P" "$TIER"
exit $?
