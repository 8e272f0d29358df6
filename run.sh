#!/bin/bash
# run.sh ID [case-key]: builds the harness with /repo's current working tree
# (through a build overlay; nothing is written in /repo) and runs one check.
# Tier: VERIF_TIER=quick|thorough.
set -u
ID=${1:?usage: run.sh ID [case]}
HERE=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$HERE VERIF_REPO=${VERIF_REPO:-/repo}
export HOME=${HOME:-/root}
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOFLAGS=-mod=readonly GOPROXY=off GOWORK=off GONOSUMDB=* GONOSUMCHECK=1
unset GODEBUG
W=$(mktemp -d "${TMPDIR:-/tmp}/verif-$ID-XXXXXX") || exit 3
trap 'rm -rf "$W"' EXIT
python3 "$HERE/overlay.py" "$HERE" "$W/overlay.json" "$ID" || exit 3
case $ID in
  C01|C02|C03|C04|C12|C14|C15|C16|C17|C19|C20) TARGET=. ; export VK_ROOT=1 ;;
  *) TARGET=./zzverif/cmd ;;
esac
cd "$VERIF_REPO" || exit 3
if ! go build -overlay "$W/overlay.json" -o "$W/bin" "$TARGET" >"$W/build.log" 2>&1; then
    echo "error: harness does not build"; cat "$W/build.log"; exit 3
fi
if [ "$ID" = C17 ]; then
    # Free-running pass under the race detector (the controlled schedules cannot see
    # accesses inside one statement); skipped when the race runtime is not available.
    if go build -race -overlay "$W/overlay.json" -o "$W/racebin" "$TARGET" >"$W/race.log" 2>&1; then
        export VK_RACEBIN=$W/racebin
    fi
    # Scheduling points before every statement of the repository's code (without them,
    # only ideal-group operations are scheduling points).
    if go build -o "$W/instr" "$HERE/harness/instr/main.go" && "$W/instr" "$W/overlay.json" "$W/inst" &&
       go build -overlay "$W/overlay.json" -o "$W/bin.i" "$TARGET"; then
        mv "$W/bin.i" "$W/bin"
    else
        echo "note: no statement-level scheduling points"
    fi
fi
"$W/bin" "$@"
