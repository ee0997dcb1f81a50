#!/bin/bash
# check.sh PROPERTY        builds the simulator from /repo's working tree and checks one property (VERIF_SEED, VERIF_TIER)
# check.sh replay FILE     replays a violation on the current tree
set -u
VERIF=$(cd "$(dirname "$0")" && pwd)
cd "$VERIF"
mkdir -p .build replays evidence
OUT=$(mktemp -d "$VERIF/.build/run.XXXXXX")
trap 'rm -rf "$OUT"' EXIT
if ! bash "$VERIF/build.sh" "$OUT" >"$OUT/build.log" 2>&1; then
	tail -30 "$OUT/build.log" >&2
	echo "cannot build the simulator from the current tree" >&2
	exit 3
fi
if [ "$1" = replay ]; then
	"$OUT/sim" replay "$2"
	exit $?
fi
"$OUT/sim" check -prop "$1" -tier "${VERIF_TIER:-quick}" -seed "${VERIF_SEED:-1}" -evidence "$VERIF/evidence/$1.json" \
	-known "$VERIF/known_findings.txt" -replays "$VERIF/replays"
exit $?
