#!/bin/bash
# check.sh PROPERTY [quick|thorough] [runner flags]: builds the harness against /repo's
# working tree and runs one property's check. Exit 0 held, 1 violated, other no verdict.
export PATH=/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
here=$(cd "$(dirname "$0")" && pwd)
prop=${1:?usage: check.sh PROPERTY [quick|thorough]}
tier=${2:-${VERIF_TIER:-quick}}
shift; [ $# -gt 0 ] && shift
work=$(mktemp -d /tmp/verif-build-XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
overlay=$(printf '"/repo/verifbridge/bridge.go": "%s/h/bridge/bridge.go.txt"' "$here")
if [ "$prop" = C18 ]; then # user-defined boxes are invented for each run
	n=300; [ "$tier" = thorough ] && n=2500
	(cd "$here/h" && CGO_ENABLED=0 go build -o "$work/genu" ./cmd/genu) && "$work/genu" "${VERIF_SEED:-1}" $n > "$work/ubox.go" || exit 2
	overlay="$overlay, $(printf '"%s/h/ubox/gen.go": "%s/ubox.go"' "$here" "$work")"
fi
printf '{"Replace": {%s}}\n' "$overlay" > "$work/overlay.json"
build() { # output, package, flags...
	local out=$1 pkg=$2; shift 2
	(cd "$here/h" && go build -overlay "$work/overlay.json" "$@" -o "$out" "$pkg")
}
flags=()
export CGO_ENABLED=0
case $prop in
C16) export CGO_ENABLED=1; flags=(-race) ;;
C18|C19) flags=(-tags bridge) ;; # with the internal bit streams
esac
export VERIF_BIN="$work"
build "$work/run" ./cmd/run "${flags[@]}" || { echo "build of the harness failed" >&2; exit 2; }
case $prop in
C04|C05|C20|C21|C22)
	(cd /repo && CGO_ENABLED=0 go build -o "$work/mp4tool" ./cmd/mp4tool) || { echo "build of mp4tool failed" >&2; exit 2; } ;;
esac
case $prop in
C21|C22) build "$work/limit" ./cmd/limit || exit 2 ;;
esac
"$work/run" -prop "$prop" -tier "$tier" "$@"
exit $?
