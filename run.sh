#!/bin/bash
# usage: run.sh PROPERTY [monitor flags]   (VERIF_SEED, VERIF_TIER)
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
id=$1; shift
cd "$here/harness" || exit 3
work=$(mktemp -d "${TMPDIR:-/tmp}/verif-$id-XXXXXX") || exit 3
trap 'rm -rf "$work"' EXIT
export VERIF_SCRATCH="$work"
case $id in
  D*) pkg=./cmd/mondep; flags=() ;;
  C*) pkg=./cmd/mon; flags=(-race); export GORACE="halt_on_error=1 exitcode=66" ;;
  *) pkg=./cmd/mon; flags=() ;;
esac
go build "${flags[@]}" -o "$work/mon" $pkg || { echo "build of the monitor failed" >&2; exit 3; }
if [ "$id" = G08 ]; then
  mkdir "$work/bin" && go build -o "$work/bin/" aqwari.net/xml/cmd/... || { echo "build of the commands failed" >&2; exit 3; }
  export VERIF_BIN="$work/bin"
fi
TMPDIR="$work" "$work/mon" -prop "$id" -verif "$here" "$@"
