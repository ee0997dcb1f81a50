#!/bin/bash
# Builds the simulator binary from the current working tree of /repo. Usage: build.sh OUTDIR
set -eu
VERIF=$(cd "$(dirname "$0")" && pwd)
REPO=${VERIF_REPO:-/repo}
OUT=${1:?}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=0
export HOME=${HOME:-/root} PATH=$PATH:/usr/local/go/bin
mkdir -p "$OUT"
OUT=$(cd "$OUT" && pwd)
(cd "$VERIF/tools/overlay" && go build -o "$OUT/overlay" .)
cd "$REPO"
sim() {
	"$OUT/overlay" "$REPO" "$VERIF" "$OUT/src" "$1" &&
		go build -overlay "$OUT/src/overlay.json" -modfile "$OUT/src/go.mod" -ldflags "-checklinkname=0 -s -w" -o "$OUT/sim" ./internal/verifsim
}
# a tree on which the instrumentation between statements does not compile is simulated without it
sim yields || sim noyields
