#!/bin/bash
# usage: check.sh PROPERTY quick|thorough [further flags]
VERIF=$(cd "$(dirname "$0")/.." && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOPROXY=off GOWORK=off GOTOOLCHAIN=local
PROP=$1; TIER=${2:-quick}; shift; shift
mkdir -p "$VERIF/evidence"
BIN=$(mktemp -d)
trap 'rm -rf "$BIN"' EXIT
(cd "$VERIF/mc" && GOFLAGS=-mod=readonly go build -o "$BIN/run" ./cmd/run) || exit 2
"$BIN/run" -verif "$VERIF" -repo "${VERIF_REPO:-/repo}" -prop "$PROP" -tier "$TIER" "$@"
