#!/bin/bash
# run.sh PROPERTY [quick|thorough]      decide one property on /repo's working tree
# run.sh --replay FILE                  repeat a recorded counterexample
# run.sh --build-only                   build everything once (warms the Go build cache)
ROOT=$(cd "$(dirname "$0")" && pwd)
REPO=/repo
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS=-mod=mod
export HOME=${HOME:-/root}
unset GOOS GOARCH
GO=/usr/local/bin/go1.27.3
[ -x "$GO" ] || GO=go
B=$(mktemp -d /tmp/mcbuild.XXXXXX) || exit 2
trap 'rm -rf "$B"' EXIT
# the harness module is copied so that nothing in /verif or /repo is rewritten
cp -r "$ROOT/mc" "$B/mc" || exit 2
cd "$B/mc" || exit 2

build() { # build OUTPUT MODE [flags...]
  local out=$1 mode=$2; shift 2
  case $mode in
    full)   "$B/instrument" -repo "$REPO" -out "$B/i" || return 1 ;;
    points) "$B/instrument" -repo "$REPO" -out "$B/i" -shim=false || return 1 ;;
    none)   "$GO" build "$@" -o "$out" ./cmd/check 2>"$B/log"; return ;;
  esac
  "$GO" build -overlay "$B/i/overlay.json" "$@" -o "$out" ./cmd/check 2>"$B/log"
}

"$GO" build -o "$B/instrument" ./cmd/instrument || exit 2
MODE=
for m in full points none; do
  rm -rf "$B/i"; mkdir -p "$B/i"
  if build "$B/check" $m; then MODE=$m; break; fi
done
if [ -z "$MODE" ]; then cat "$B/log" >&2; echo "cannot build /repo" >&2; exit 2; fi

racebin() {
  CGO_ENABLED=1 "$GO" build -race -gcflags=all=-d=checkptr=0 -o "$B/checkrace" ./cmd/check 2>"$B/rlog" || { cat "$B/rlog" >&2; return 1; }
}

case $1 in
  --build-only) racebin; exit 0 ;;
  --replay) "$B/check" -replay "$2" -root "$ROOT"; exit $? ;;
esac
ID=$1; shift
TIER=${1:-${VERIF_TIER:-quick}}; shift
RB=()
if [ "$ID" = C15 ]; then racebin && RB=(-racebin "$B/checkrace"); fi
"$B/check" -prop "$ID" -tier "$TIER" -root "$ROOT" -build "$B/i" -mode "$MODE" "${RB[@]}" "$@"
exit $?
