#!/bin/bash
# bash run.sh <property> [quick|thorough] [--replay FILE] [extra flags]
# Builds the harness from /repo's current working tree and decides one property.
HERE=$(cd "$(dirname "$0")" && pwd)
ID="$1"; TIER="${2:-${VERIF_TIER:-quick}}"; shift; [ $# -gt 0 ] && shift
SEED="${VERIF_SEED:-1}"
export HOME="${HOME:-/root}"
export PATH=/usr/local/go/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
# properties are grouped so that a package that does not compile takes only its group along
RACE=
case "$ID" in
  P0[1-8]|P13|P14|P15|P20|P23|P25|P26|P27) CMD=fontprops ;;
  P09|P10|P29) CMD=parseprops ;;
  P11|P12) CMD=maskprops ;;
  P16|P17|P18|P19) CMD=testerprops ;;
  P21|P22) CMD=nameprops ;;
  P24) CMD=internalprops ;;
  P28) CMD=raceprops; RACE=-race ;;
  *) echo "unknown property $ID" >&2; exit 2 ;;
esac
W=$(mktemp -d "${TMPDIR:-/tmp}/ggfntcheck.XXXXXX") || exit 2
trap 'rm -rf "$W"' EXIT
if ! (cd "$HERE/harness" && go build $RACE -o "$W/$CMD" "./cmd/$CMD") >"$W/build.log" 2>&1; then
  cat "$W/build.log" >&2
  echo "error: the harness does not build against /repo" >&2
  exit 2
fi
ARGS=(-prop "$ID" -tier "$TIER" -seed "$SEED" -verif "$HERE" -evidence "$HERE/evidence/$ID.json")
while [ $# -gt 0 ]; do
  case "$1" in
    --replay) ARGS+=(-replay "$2"); shift 2 ;;
    *) ARGS+=("$1"); shift ;;
  esac
done
export GORACE="halt_on_error=1 exitcode=66"
"$W/$CMD" "${ARGS[@]}"
