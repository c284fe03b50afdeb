#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds the harness against /repo's
# current working tree and runs one property's check.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/usr/local/bin:/usr/local/go/bin:/usr/bin:/bin:$PATH
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod CGO_ENABLED=0 GOWORK=off
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
tmp=$(mktemp -d "${TMPDIR:-/tmp}/pbt-build.XXXXXX") || exit 3
trap 'rm -rf "$tmp"' EXIT
cd "$here/harness" || exit 3
overlay=()
case $prop in
C06|C09|C12|C18|C19|C20|C24)
  # generate the user-defined box structures and compile them in
  n=150
  [ "$tier" = thorough ] && n=400
  if [ "$prop" = C20 ]; then
    n=400
    [ "$tier" = thorough ] && n=3000
  fi
  if ! go run ./gentypes -seed "$seed" -n "$n" -o "$tmp/user_gen.go" >"$tmp/log" 2>&1; then
    cat "$tmp/log"
    echo "ERROR: gentypes failed"
    exit 3
  fi
  echo "{\"Replace\":{\"$here/harness/user_gen.go\":\"$tmp/user_gen.go\"}}" >"$tmp/overlay.json"
  overlay=(-overlay "$tmp/overlay.json") ;;
esac
if ! go build "${overlay[@]}" -o "$tmp/pbt" . >"$tmp/log" 2>&1; then
  cat "$tmp/log"
  echo "ERROR: harness does not build against /repo"
  exit 3
fi
case $prop in
C24)
  # a second binary with the race detector, where cgo is available
  if CGO_ENABLED=1 go build -race -o "$tmp/pbtrace" . >"$tmp/log" 2>&1; then
    export PBT_RACE="$tmp/pbtrace"
  else
    echo "note: no race detector: $(tail -n 1 "$tmp/log")"
  fi ;;
esac
case $prop in
C25|C26|C27|C28|C29|C30|C31)
  if ! go build -o "$tmp/mp4tool" github.com/abema/go-mp4/cmd/mp4tool >"$tmp/log" 2>&1; then
    cat "$tmp/log"
    echo "ERROR: mp4tool does not build"
    exit 3
  fi
  export PBT_MP4TOOL="$tmp/mp4tool" ;;
esac
TMPDIR="$tmp" "$tmp/pbt" -prop "$prop" -tier "$tier" -seed "$seed" -root "$here" -repo /repo "${@:3}"
